From 30e21541f0c581f4bbbec7fdb85a5813f404f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:24 +0000
Subject: [PATCH 01/59] fix: a table created with one bucket got an all-ones
 low mask and lost keys

---
 filehash/ffdb_hash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5cb477b..86eba83 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -612,7 +612,8 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 
   /* high mask and low mask value */
   hashp->hdr.max_bucket = hashp->hdr.high_mask = nbuckets - 1;
-  hashp->hdr.low_mask = (nbuckets >> 1) - 1;
+  /* a single bucket has no lower half: every key hashes to bucket 0 */
+  hashp->hdr.low_mask = (nbuckets > 1) ? (nbuckets >> 1) - 1 : 0;
 
   /* set hash version and flag */
   hashp->hdr.magic = FFDB_HASHMAGIC;
-- 
2.43.0


From bfe21dfece0731008cc14cf65a40097480901b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 02/59] fix: keys within 3 bytes of the maximum size never
 fitted an empty page and were lost

---
 filehash/ffdb_page.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.h b/filehash/ffdb_page.h
index a36f79e..7af760c 100644
--- a/filehash/ffdb_page.h
+++ b/filehash/ffdb_page.h
@@ -218,7 +218,7 @@ typedef struct _ffdb_datap_
 /* This is over estimate: since we have to align data pointer on 4 byte boundary
  * therefore the worst case is sizeof(ffdb_datap_t) + sizeof(int) - 1
  */
-#define PAIRSIZE(K,D) (PAIR_OVERHEAD + (K)->size + sizeof(ffdb_datap_t) + sizeof(int) - 1)
+#define PAIRSIZE(K,D) (PAIR_OVERHEAD + (((K)->size + sizeof(int) - 1) & ~(sizeof(int) - 1)) + sizeof(ffdb_datap_t))
 
 /*
  * Since these are all unsigned, we need to guarantee that we never go
-- 
2.43.0


From db0c1be59988be66ff386b4d543ac7fef4ec4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 03/59] fix: storing multi-page data could read up to 20 bytes
 past the caller's buffer

---
 filehash/ffdb_page.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8d168b1..c61a1f0 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -724,6 +724,8 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
 	FIRST_DATA_POS(currpagep) = 0; 
 	/* we copy most of the rest of page */
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
       }
 
       /* where to start copy the data */
@@ -858,8 +860,11 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       /* check whether data will fit this page */
       if ((size_t)rlen <= hashp->hdr.bsize - BIG_PAGE_OVERHEAD - BIG_DATA_OVERHEAD) 
 	copylen = rlen;
-      else 
+      else {
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
+      }
 
       /* where to start copy the data */
       idx = val->size - rlen;
-- 
2.43.0


From b6e31e2d50416b9afe266e762a20c046bc5089e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:53 +0000
Subject: [PATCH 04/59] fix: replacing huge data by smaller data kept the old
 high length bits

---
 filehash/ffdb_page.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index c61a1f0..c96497c 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1724,8 +1724,10 @@ _ffdb_replace_item_on_page (ffdb_htab_t* hashp,
   }
 
   /* Change data pointer value */
-  if (hashp->hdr.version > FFDB_VERSION_5 && IS_HUGE_DATA(val->size)) {
-    /* insert ncessary length information to offset */
+  if (hashp->hdr.version > FFDB_VERSION_5) {
+    /* insert ncessary length information to offset: this also clears the
+     * length bits left by a huge datum
+     */
     INSERT_LEN_TO_PGOFFSET(val->size, datap->offset);
     datap->len = (unsigned int)val->size;
     datap->chksum = item->data_chksum;
-- 
2.43.0


From 051baa4383d2e3630c6cddb4f95700fb68848bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:07 +0000
Subject: [PATCH 05/59] fix: releasing one of several references to a page
 unpinned it for all of them

---
 filehash/ffdb_pagepool.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6fedcd1..e514054 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1240,19 +1240,26 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
    * Derefence the page
    */
   bp->ref--;
-  /*
-   * I am giving up the ownership
+
+  /**
+   * The owner may have got this page more than once (a cursor sitting on a
+   * page that is also looked up): it is given up with the last reference
    */
-  FFDB_THREAD_NULL(bp->owner);
+  if (bp->ref == 0) {
+    /*
+     * I am giving up the ownership
+     */
+    FFDB_THREAD_NULL(bp->owner);
   
-  /** 
-   * Now Unpin the page and wake up other threads waiting 
-   */
-  FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_PINNED);
+    /** 
+     * Now Unpin the page and wake up other threads waiting 
+     */
+    FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_PINNED);
 
-  if (bp->waiters > 0) {
-    sleeper = FFDB_CIRCLEQ_LAST(&bp->wqh);
-    sleeper->wakeup = 0xdeafbeaf;
+    if (bp->waiters > 0) {
+      sleeper = FFDB_CIRCLEQ_LAST(&bp->wqh);
+      sleeper->wakeup = 0xdeafbeaf;
+    }
   }
 
   FFDB_UNLOCK(pgp->lock);
-- 
2.43.0


From a241c80c075b2f128a5e58d3af3c3f7be22b1178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:07 +0000
Subject: [PATCH 06/59] fix: failed, refused and empty-datum operations left
 their pages pinned, so sync skipped them

---
 filehash/ffdb_hash.c | 1 +
 filehash/ffdb_page.c | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 86eba83..a1efe27 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1319,6 +1319,7 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
      * a replace flag
      */
     if (flag && flag == FFDB_NOOVERWRITE) {
+      ffdb_release_item (hashp, &item);
       FFDB_UNLOCK (hashp->lock);  
       return -1;
     }
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index c96497c..316a034 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -470,6 +470,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (val->size < datalen) {
       fprintf (stderr, "Warning: application allocated space %ld < data size %ld\n",
 	       (long)val->size, datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     else
@@ -480,6 +481,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (!val->data) {
       fprintf (stderr, "Cannot allocate space to get data back for size of %ld bytes. \n",
 	       datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     val->size = datalen;
@@ -490,6 +492,8 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
   rlen = val->size;
   start = roff + sizeof(ffdb_data_header_t);
   next = NEXT_PGNO(pagep);
+  if (rlen == 0) /* empty datum: there is nothing to copy from this page */
+    ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
   while (rlen > 0) {
     /* where copy starts in val->data */
     idx = val->size - rlen;
@@ -1555,6 +1559,8 @@ int ffdb_get_item (ffdb_htab_t* hashp,
   if (status != 0) {
     fprintf (stderr, "Cannot get data on page %d at offset %d\n",
 	     datap->first, datap->offset);
+    if (freepage)
+      ffdb_put_page (hashp, item->pagep, HASH_RAW_PAGE, 0);
     return status;
   }
 
@@ -2742,6 +2748,7 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
     if (i == 0) {
       if (*len < USER_DATA_LEN(pagep)) {
 	fprintf (stderr, "Error: provided user buffer size %d < stored data length %d.\n", *len, USER_DATA_LEN(pagep));
+	ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
 	return -1;
       }
       *len = USER_DATA_LEN(pagep);
-- 
2.43.0


From 550356f72b98d4d1aa54230526a09ac619b3c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 07/59] fix: closing right after the table doubled moved pages
 that do not exist and grew the file

---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 316a034..24c3ad6 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2390,6 +2390,10 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   if (num_unused == 0)
     return 0;
 
+  /* There is nothing above the hash pages of this level yet */
+  if (hashp->hdr.spares[hashp->hdr.ovfl_point + 1] == 0)
+    return 0;
+
   /* First and last unused page */
   BUCKET_TO_PAGE(hashp->hdr.max_bucket + 1, funused);
   BUCKET_TO_PAGE(hashp->hdr.high_mask, lunused);
-- 
2.43.0


From 8f15bdbd14918a0d9c7ea8f7f1bb81f27d27cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 08/59] fix: positioning a cursor on an empty database left the
 range of its buckets

---
 filehash/ffdb_page.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 24c3ad6..1864dd6 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2814,11 +2814,15 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       return -1;
     }
     /* Skip empty buckets */
-    while (NUM_ENT(cursor->item.pagep) == 0 && 
-	   bucket <= hashp->hdr.max_bucket) {
+    while (NUM_ENT(cursor->item.pagep) == 0) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == hashp->hdr.max_bucket) {
+	/* empty database */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
+      /* Get next bucket */
       bucket++;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2830,13 +2834,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	return -1;
       }
     }
-    if (bucket > hashp->hdr.max_bucket) {
-      /* empty database */
-      ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      cursor->item.status = ITEM_NO_MORE;
-      cursor->item.pagep = 0;
-      return FFDB_NOT_FOUND;
-    }
     cursor->item.bucket = bucket;
     cursor->item.pgno = tp;
     cursor->item.pgndx = 0;
@@ -2859,8 +2856,13 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     /* Skip empty buckets */
     while (NUM_ENT(cursor->item.pagep) == 0) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == 0) {
+	/* this is the last one and it is empty */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
+      /* Get next bucket */
       bucket--;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2871,13 +2873,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.status = ITEM_ERROR;
 	return -1;
       }
-      if (bucket == 0 && NUM_ENT(cursor->item.pagep) == 0) {
-	/* this is the last one and it is empty */
-	ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-	cursor->item.status = ITEM_NO_MORE;
-	cursor->item.pagep = 0;
-	return FFDB_NOT_FOUND;
-      }
     }
 
     cursor->item.pgno = tp;
-- 
2.43.0


From cd2805d99733a08cca8adfbd229a48686e1e0a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 09/59] fix: moving a cursor again after it reached the end
 dereferenced a null page

---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 1864dd6..3c0639e 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2880,6 +2880,10 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     cursor->item.pgndx = NUM_ENT(cursor->item.pagep) - 1;
     cursor->item.status = ITEM_OK;
   }
+  else if (!cursor->item.pagep) {
+    /* NEXT or PREV from a cursor which already went past either end */
+    return FFDB_NOT_FOUND;
+  }
   else if (flags == FFDB_NEXT) {
     /* We have reached the last data on the key page */
     if (cursor->item.pgndx == NUM_ENT(cursor->item.pagep) - 1) {
-- 
2.43.0


From 4405fe1a9ffd0a6764e3f9d31a49ad2053d00624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 10/59] fix: ffdb_get_config refused lookups depending on what
 its output buffer held

---
 filehash/ffdb_hash.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index a1efe27..7a9debf 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1527,13 +1527,6 @@ ffdb_get_config (const FFDB_DB* db, unsigned int confignum,
 
   hashp = (ffdb_htab_t *)db->internal;
 
-  if (config->index >= hashp->hdr.cfig_npages || config->index < 0) {
-    fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
-	     config->index, hashp->hdr.cfig_npages);
-    errno = EINVAL;
-    return -1;
-  }
-
   return ffdb_get_config_info (hashp, confignum, config);
 }
 
-- 
2.43.0


From fb061eb1766ca2aeb011cbd04a9d8781b0448ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 11/59] fix: ffdb_get_all_configs returned uninitialised
 entries before any was set

---
 filehash/ffdb_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 7a9debf..745af15 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1480,7 +1480,7 @@ ffdb_get_all_configs (const FFDB_DB* db, ffdb_all_config_info_t* configs)
   hashp = (ffdb_htab_t *)db->internal;
 
   configs->numconfigs = hashp->hdr.num_cfigs;
-  configs->allconfigs = (ffdb_config_info_t *)malloc(configs->numconfigs * sizeof(ffdb_config_info_t));
+  configs->allconfigs = (ffdb_config_info_t *)calloc(configs->numconfigs, sizeof(ffdb_config_info_t));
   if (!configs->allconfigs) {
     fprintf (stderr, "Cannot allocate memory space for all configurations.\n");
     errno = ENOMEM;
-- 
2.43.0


From 7eb791fff251b33db36eb8f99e163e5cf2924bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:36 +0000
Subject: [PATCH 12/59] fix: metadata could be changed through a read-only
 handle, and the change silently lost

---
 filehash/ffdb_hash.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 745af15..4e62986 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1459,6 +1459,12 @@ ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* nothing is written through a read only handle */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   /* Check whether configs have the same number of configs the database
    * thinks it should have
    */
@@ -1508,6 +1514,12 @@ ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* nothing is written through a read only handle */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if ((unsigned int)config->index >= hashp->hdr.num_cfigs || config->index < 0) {
     fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
 	     config->index, hashp->hdr.cfig_npages);
@@ -1540,6 +1552,12 @@ ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* nothing is written through a read only handle */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if (len > hashp->hdr.uinfolen) {
     fprintf (stderr, "%d exceeds maximum allowed user data is %d\n", 
 	     len, hashp->hdr.uinfolen);
-- 
2.43.0


From e5d7a3d040a31ad97d66d05e0b19908e11777af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:20 +0000
Subject: [PATCH 13/59] fix: user information spanning pages came back garbled
 from a file of the other byte order

---
 filehash/ffdb_page.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 3c0639e..8b72247 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -175,7 +175,9 @@ _ffdb_swap_page_metainfo_in (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    /* only the first user information page starts with a length */
+    if (NUM_ENT(p) > 0)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < NUM_ENT(p); i++) 
@@ -352,7 +354,9 @@ _ffdb_swap_page_metainfo_out (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    /* only the first user information page starts with a length */
+    if (num > 0)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < num; i++) 
-- 
2.43.0


From 9686aa7bbff6b60b954fa4f0a16e6fcefc3286b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:47 +0000
Subject: [PATCH 14/59] fix: writing a page of an other-byte-order file left
 the cached page byte swapped

---
 filehash/ffdb_pagepool.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index e514054..f621d7e 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -265,24 +265,37 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   off_t offset;
   int nbytes;
   int ret = 0;
+  void* image = bp->page;
 
 #ifdef _FFDB_STATISTICS
   ++pgp->pagewrite;
 #endif
 
-  /* Run through the user's filter. */
-  if (pgp->pgout)
-    (pgp->pgout)(pgp->pgcookie, bp->pgno, bp->page);
+  /* Run through the user's filter. The filter turns the page into its disk
+   * format, while the cached page may still be used: filter a copy
+   */
+  if (pgp->pgout) {
+    image = malloc (pgp->pagesize);
+    if (!image) {
+      fprintf (stderr, "Cannot allocate a buffer to write page %d\n", bp->pgno);
+      return -1;
+    }
+    memcpy (image, bp->page, pgp->pagesize);
+    (pgp->pgout)(pgp->pgcookie, bp->pgno, image);
+  }
 
   offset =  (off_t)pgp->pagesize * bp->pgno;
 
   if (lseek(pgp->fd, offset, SEEK_SET) != offset) 
     ret = -1;
   else {
-    if ((unsigned int)(nbytes = write(pgp->fd, bp->page, pgp->pagesize)) != pgp->pagesize) 
+    if ((unsigned int)(nbytes = write(pgp->fd, image, pgp->pagesize)) != pgp->pagesize) 
       ret = -1;
   }
 
+  if (image != bp->page)
+    free (image);
+
   if (ret == 0)
     FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
 
-- 
2.43.0


From c2733b3c4ab8b32888b73d4c9c808cdf86090854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:47 +0000
Subject: [PATCH 15/59] fix: a failed insert that needed an overflow page was
 reported as success

---
 filehash/ffdb_page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8b72247..b9e4365 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1837,7 +1837,7 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
-- 
2.43.0


From 435fbe99028e702937ccbaaa71870d2e475b5d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:47 +0000
Subject: [PATCH 16/59] fix: the link to an additional free-list page was not
 written to disk

---
 filehash/ffdb_page.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index b9e4365..2240865 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1324,8 +1324,8 @@ _ffdb_free_ovflpage (ffdb_htab_t* hashp, void* memp, int isdoubling,
       NEXT_PGNO (fpagep) = xpage;
       PREV_PGNO (xpagep) = fpage;
 
-      /* release the previous page */
-      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 0); 
+      /* release the previous page, whose link is changed */
+      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 1); 
     }
   }
 }
-- 
2.43.0


From 61fb2ea2940aa36bae5b670e71e5fe98b4b1e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:07 +0000
Subject: [PATCH 17/59] fix: a damaged page signature made a page read as empty
 instead of failing its checksum

---
 filehash/ffdb_page.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 2240865..2ce6a89 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -257,11 +257,28 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
 {
   ffdb_htab_t* hashp;
   unsigned int chksum = 0;
+  unsigned int i, blank;
 
   hashp = (ffdb_htab_t *)arg;
 
+  /* A page which was never written reads as zeros */
+  blank = 1;
+  for (i = 0; blank && i < (unsigned int)hashp->hdr.bsize; i++)
+    blank = (((unsigned char *)page)[i] == 0);
+  if (blank) {
+    /* This is a unintialized page */
+    _ffdb_init_page (hashp, page, pgno, HASH_DELETED_PAGE);
+    return;
+  }
+
   /* calculate checksum before byte swapped */
   chksum = _ffdb_page_checksum (hashp, page);
+  if (hashp->hdr.lorder != hashp->mborder)
+    M_32_SWAP(chksum);
+  if (chksum != CHKSUM(page)) {
+    fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, CHKSUM(page));
+    exit (123);
+  }
 
 #if 0
   /* First swap the header to disk */
@@ -282,15 +299,8 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
 #endif  
   
   if (PAGE_SIGN(page) != FFDB_PAGE_MAGIC) {
-    /* This is a unintialized page */
-    _ffdb_init_page (hashp, page, pgno, HASH_DELETED_PAGE);
-  }
-  else {
-    if (chksum != CHKSUM(page)) {
-      /* The check sum chould 0 because this page is empty page */
-      fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, CHKSUM(page));
-      exit (123);
-    }
+    fprintf (stderr, "Reading page %d with wrong signature 0x%x\n", pgno, PAGE_SIGN(page));
+    exit (123);
   }
 }
 
-- 
2.43.0


From 2fd8ad8de11540d43facd66d7e3ed6dc96045df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:07 +0000
Subject: [PATCH 18/59] fix: sync and close reported success although pages
 could not be written

---
 filehash/ffdb_hash.c     | 20 +++++++++++++-------
 filehash/ffdb_pagepool.c |  5 +++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 4e62986..bcf6ead 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -228,8 +228,8 @@ _ffdb_hput_header (ffdb_htab_t* hashp)
 
 
   /* write the header */
-  lseek(hashp->fp, 0, SEEK_SET);
-  num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
+  if (lseek(hashp->fp, 0, SEEK_SET) == 0)
+    num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "hash: could not write hash header");
     return -1;
@@ -300,21 +300,24 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   /* flush meta information header to disk */
   if (_ffdb_flush_meta (hashp) != 0)
     if (save_errno == 0)
-      save_errno = errno;
+      save_errno = errno ? errno : EIO;
 
   /* close the pagepool */
 #ifdef _FFDB_STATISTICS
   ffdb_pagepool_stat (hashp->mp);
 #endif
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0)
+    if (save_errno == 0)
+      save_errno = errno ? errno : EIO;
   ffdb_pagepool_close (hashp->mp);
 
   /* Reduce file size if possible */
   if (hashp->rearrange_pages)
     ffdb_reduce_filesize (hashp);
 
-  if (hashp->fp != -1)
-    close (hashp->fp);
+  if (hashp->fp != -1 && close (hashp->fp) != 0)
+    if (save_errno == 0)
+      save_errno = errno;
 
   if (hashp->fname)
     free (hashp->fname);
@@ -1393,7 +1396,10 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0) {
+    FFDB_UNLOCK(hashp->lock);
+    return -1;
+  }
 
   FFDB_UNLOCK(hashp->lock);
   return 0;
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index f621d7e..110e18f 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1411,6 +1411,7 @@ static int
 _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 {
   unsigned int num;
+  int ret = 0;
   ffdb_bkt_t* bp;
   ffdb_sbkt_t* sbp;
   ffdb_sbkt_t* next;
@@ -1459,7 +1460,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
       if (_ffdb_pagepool_write (pgp, sbp->bp) != 0) {
 	fprintf (stderr, "ffdb_pagepool_sync: writing page %d error.\n",
 		 sbp->bp->pgno);
-	return -1;
+	ret = -1;
       }
     }
 #ifdef _FFDB_STATISTICS
@@ -1471,7 +1472,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
     sbp = next;
   }
 
-  return 0;
+  return ret;
 }
 
 
-- 
2.43.0


From f612d74cfb4d4156fb10deb4daaeebe5a4d8eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:30 +0000
Subject: [PATCH 19/59] fix: a failed page read was used as if it had delivered
 a page

---
 filehash/ffdb_pagepool.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 110e18f..13ccc9f 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -777,12 +777,16 @@ _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
   off = (off_t)pgp->pagesize * (pageno);
   if (lseek (pgp->fd, off, SEEK_SET) != off) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot seek to a right position.\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return errno ? errno : EIO;
   }
   nbytes = read (pgp->fd, bp->page, pgp->pagesize);
-  if ((unsigned int)nbytes != pgp->pagesize && nbytes > 0) {
+  if ((unsigned int)nbytes != pgp->pagesize && nbytes != 0) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot read back end file\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return (nbytes < 0 && errno) ? errno : EIO;
   }
   else if (nbytes == 0) 
     memset (bp->page, 0, pgp->pagesize);
-- 
2.43.0


From 9a33b2152d47b4ee06029728cbd7e267967c9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:23 +0000
Subject: [PATCH 20/59] fix: opening a database whose metadata pages cannot be
 read crashed

---
 filehash/ffdb_hash.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index bcf6ead..bc4ab45 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -479,6 +479,8 @@ _ffdb_read_user_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_UINFO_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_UINFO_PAGE, dirty);
   }
   return 0;
@@ -511,6 +513,8 @@ _ffdb_read_config_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_CONFIG_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_CONFIG_PAGE, dirty);
   }
   return 0;
@@ -882,8 +886,17 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
 
 
   /* always read in user information page and configuration page */
-  _ffdb_read_user_info (hashp);
-  _ffdb_read_config_info (hashp);
+  if (_ffdb_read_user_info (hashp) != 0 ||
+      _ffdb_read_config_info (hashp) != 0) {
+    ret = errno;
+    ffdb_pagepool_close (hashp->mp);
+    close (hashp->fp);
+    free (hashp->fname);
+    free (hashp->split_buf);
+    free (hashp);
+    errno = ret;
+    return 0;
+  }
 
   if (!(dbp = (FFDB_DB *)malloc(sizeof(FFDB_DB)))) {
     ffdb_pagepool_close (hashp->mp);
-- 
2.43.0


From b29a9d6f8ee78e935c748aadca3ec195cb594889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:23 +0000
Subject: [PATCH 21/59] fix: a thread waiting for a page could be signalled
 through freed memory

---
 filehash/ffdb_pagepool.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 13ccc9f..8be650e 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1279,14 +1279,17 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
     }
   }
 
-  FFDB_UNLOCK(pgp->lock);
-
-  /* bp->waiters will not be changed until other threads are waken up */
+  /* bp->waiters will not be changed until other threads are waken up.
+   * The waiter is freed by the thread it wakes up, so signal it before the
+   * lock is given up
+   */
 #if 0
   fprintf (stderr, "Signaling page %d free \n", bp->pgno);
 #endif
   if (sleeper)
     FFDB_COND_SIGNAL(sleeper->cv);
+
+  FFDB_UNLOCK(pgp->lock);
   return 0;
 }
 
-- 
2.43.0


From 1dd84a6f044688515903e5717b8565ea8fcabf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:32 +0000
Subject: [PATCH 22/59] fix: freed overflow pages kept their old type on disk
 and were moved as live pages on close

---
 filehash/ffdb_page.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 2ce6a89..c57bf87 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2067,7 +2067,9 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
       ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling);
     
     if (nextpage != INVALID_PGNO) 
-      temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 0, &tp);
+      /* this page is going to be freed: its new type has to reach the disk */
+      temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 
+				  FFDB_PAGE_DIRTY, &tp);
     else
       break;
   }
-- 
2.43.0


From a4695dd97f86d916d5ea6da63179002f4cad0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:08 +0000
Subject: [PATCH 23/59] fix: VFloatData kept only integers on its way through
 the binary form, and read past short input

---
 src/VFloatData.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/VFloatData.cpp b/src/VFloatData.cpp
index 0fd00ee..b64efbd 100644
--- a/src/VFloatData.cpp
+++ b/src/VFloatData.cpp
@@ -32,6 +32,7 @@
  *
  */
 #include <stdlib.h>
+#include <cstring>
 #include <sstream>
 #include "VFloatData.h"
 
@@ -123,18 +124,20 @@ namespace FILEDB
   void 
   VFloatData::writeObject (std::string& output) const noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
-    unsigned short pad;
+    unsigned short pad = 0;
     unsigned int   num;
 
     num = hton_int(data_.size ());
     id = hton_short(serialID());
-    vcfbuf = new float[data_.size()];
+    vcfbuf = new unsigned int[data_.size()];
 
-    // assign complex data values to the array
-    for (std::size_t i = 0; i < data_.size(); i++) 
-      vcfbuf[i] = hton_int((int)data_[i]);
+    // assign the bit patterns of the values to the array
+    for (std::size_t i = 0; i < data_.size(); i++) {
+      ::memcpy (&vcfbuf[i], &data_[i], sizeof(float));
+      vcfbuf[i] = hton_int(vcfbuf[i]);
+    }
 
     // output stream
     ostringstream ostrm;
@@ -167,12 +170,15 @@ namespace FILEDB
   void 
   VFloatData::readObject (const std::string& input)  noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
     unsigned int   num;
     unsigned int hlen = 2 * sizeof(unsigned short) + sizeof(unsigned int);
     unsigned int idlen = sizeof(unsigned short);
     
+    if (input.length() < hlen)
+      throw SerializeException ("VFloatData", "Serial Binary Data Size error");
+
     const char* buf = input.data();
     ::memcpy (&id, buf, idlen);
     ::memcpy (&num, &buf[2*idlen], sizeof(unsigned int));
@@ -187,15 +193,17 @@ namespace FILEDB
       throw SerializeException ("VFloatData", "Serial Binary Data Size error");
 
     // copy all float values
-    vcfbuf = new float[num];
+    vcfbuf = new unsigned int[num];
     ::memcpy (vcfbuf, &buf[hlen], input.length() - hlen);
 
     // resize this vector
     data_.resize(num);
 
     // assign vector elements
-    for (unsigned int i = 0; i < num; i++) 
-      data_[i] = ntoh_int((int)vcfbuf[i]);
+    for (unsigned int i = 0; i < num; i++) {
+      vcfbuf[i] = ntoh_int(vcfbuf[i]);
+      ::memcpy (&data_[i], &vcfbuf[i], sizeof(float));
+    }
 
     delete []vcfbuf;
   }
-- 
2.43.0


From 47cdb5e3dad97fa4cf2ae3f1a59804a5654e1705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:08 +0000
Subject: [PATCH 24/59] fix: configuration information was stored with an
 undefined type and unterminated names

---
 src/AllConfStoreDB.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index f82db84..23fbbc0 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -141,6 +141,7 @@ namespace FILEDB
       allcfgs_->allconfigs =
           (ffdb_config_info_t *)malloc(sizeof(ffdb_config_info_t) * nbin_);
       for (int i = 0; i < nbin_; i++) {
+	::memset (&allcfgs_->allconfigs[i], 0, sizeof(ffdb_config_info_t));
 	allcfgs_->allconfigs[i].config = configs[i];
 	allcfgs_->allconfigs[i].index = i;
 	allcfgs_->allconfigs[i].inserted = 0;
@@ -172,7 +173,7 @@ namespace FILEDB
 	  allcfgs_->allconfigs[i].fname[0] = '\0';
 	else
 	  strncpy (allcfgs_->allconfigs[i].fname, names[i].c_str(), 
-		   _FFDB_MAX_FNAME);
+		   _FFDB_MAX_FNAME - 1);
       }
     }
       
@@ -725,12 +726,14 @@ namespace FILEDB
     int setConfigInfo (const ConfigInfo& config)
     {
       ffdb_config_info_t info;
-      
+
+      ::memset (&info, 0, sizeof(info));
       info.config = config.configNumber();
       info.index = config.index();
       info.inserted = config.inserted ();
+      info.type = config.type ();
       info.mtime = config.modifiedTime();
-      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME);
+      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME - 1);
 
       return ffdb_set_config (this->db->dbh_, &info);
     }
-- 
2.43.0


From 7b0f64c2d560c28c056b25084072642d7d43638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:31 +0000
Subject: [PATCH 25/59] fix: updating an ensemble member outside the ensemble
 wrote outside its data

---
 src/AllConfStoreDB.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 23fbbc0..93fa9a7 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -536,6 +536,11 @@ namespace FILEDB
       (void)config;
       int ret = 0;
 
+      if (index < 0 || index >= nbin_) {
+	std::cerr << "Update index " << index << " is not one of " << nbin_ << " configurations" << std::endl;
+	return -1;
+      }
+
       if (empty_) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
-- 
2.43.0


From da09e4eb27eaa3331f7d17a46f4853326c1f079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:31 +0000
Subject: [PATCH 26/59] fix: an ensemble of unequal elements was stored
 although it can never be taken apart again

---
 src/AllConfStoreDB.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 93fa9a7..be63346 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -421,6 +421,10 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	if (elem.size() * i != dstr.size()) {
+	  std::cerr << "Element " << i << " of the ensemble differs in length from the others" << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -475,6 +479,10 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	if (elem.size() * i != dstr.size()) {
+	  std::cerr << "Element " << i << " of the ensemble differs in length from the others" << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -511,8 +519,13 @@ namespace FILEDB
 
       // combine the vector of string into one big string
       std::string dstr;
-      for (unsigned int i = 0; i < v.size(); i++) 
+      for (unsigned int i = 0; i < v.size(); i++) {
+	if (v[i].size() * i != dstr.size()) {
+	  std::cerr << "Element " << i << " of the ensemble differs in length from the others" << std::endl;
+	  return -1;
+	}
 	dstr.append (v[i]);
+      }
 
       ret = this->insertBinary (key, dstr);
       if (ret != 0) {
-- 
2.43.0


From ab9060e048c189eb3712f27998ff38bc37c45927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:32 +0000
Subject: [PATCH 27/59] fix: opening another ensemble database kept the element
 size of the former one

---
 src/AllConfStoreDB.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index be63346..c76abf9 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -192,6 +192,9 @@ namespace FILEDB
       if (this->ConfDataStoreDB<K, D>::open(file, open_flags, mode) != 0)
         return -1;
       
+      // nothing is known about the element size of this database yet
+      bytesize_ = 0;
+
       // check whether this database is empty
       empty_ = this->isEmpty ();
 
-- 
2.43.0


From 6b971abd55c8fe168a35de4d3796352da289b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:50 +0000
Subject: [PATCH 28/59] fix: merging with less memory than one key of all
 configurations divided by zero

---
 src/ConfDataDBMerger.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 416c877..340b73a 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -251,10 +251,12 @@ namespace FILEDB
       int chunk;
 
       // calculate size for one key and its data for all configuration
-      unsigned int asize = (key.length() + data.length()) * numconfs;
+      std::size_t asize = (key.length() + data.length()) * numconfs;
 
-      // number of elements each iteration to use
+      // number of elements each iteration to use: at least one
       chunk = max_memory/asize > numelems ? numelems : max_memory/asize;
+      if (chunk == 0)
+	chunk = 1;
 
       // calculate cachesize for each single database
       cachesize = chunk * (key.length() + data.length());
-- 
2.43.0


From 8f98a67cf426c171f31e15514cec5e5f262a2416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:50 +0000
Subject: [PATCH 29/59] fix: merging recorded a configuration without a
 database as its predecessor, or lost the place of all

---
 src/ConfDataDBMerger.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 340b73a..678f845 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -118,7 +118,8 @@ namespace FILEDB
 #endif
 	std::vector< std::string > thr;
 	
-	thr.resize (numconfigs);
+	// a configuration without a database keeps its room in the ensemble
+	thr.resize (numconfigs, data[i]);
 
 	if (bag.find (keys[i])  != bag.end()) {
 	  std::cerr << "Cannot be right, this key should not be here" 
@@ -326,6 +327,8 @@ namespace FILEDB
 	  info.type (0);
 	  if ((*site) != "N/A")
 	    info.urlname (*site);
+	  else
+	    info.urlname ("");
 	  configs_.push_back (info);
 	  
 	  site++;
-- 
2.43.0


From 94f46f9f7aeadc1a709e33a11e610f270380fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:50 +0000
Subject: [PATCH 30/59] fix: fileExists of several databases did not look at
 the files before they were open

---
 src/AllConfStoreMultipleDB.h  | 10 ++++------
 src/ConfDataStoreMultipleDB.h | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index af1f74d..808838e 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -100,15 +100,13 @@ namespace FILEDB
      */
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
-      int ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(std::size_t i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
-	if (! ret)
-	  return ret;
+	if (! FILEDB::fileExists(files[i]))
+	  return false;
       }
 
-      return ret;
+      return true;
     }
 
 
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 9ef3bb5..30e41df 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -114,15 +114,13 @@ namespace FILEDB
      */
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
-      int ret = false;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(std::size_t i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
-	if (! ret)
-	  return ret;
+	if (! FILEDB::fileExists(files[i]))
+	  return false;
       }
 
-      return ret;
+      return true;
     }
 
 
-- 
2.43.0


From 484b6a8eb23cc726645da9baf441fd0629f3c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:50 +0000
Subject: [PATCH 31/59] fix: asking a closed store for a key dereferenced a
 null pointer

---
 src/ConfDataStoreDB.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfDataStoreDB.h b/src/ConfDataStoreDB.h
index a89ef45..941f2c9 100644
--- a/src/ConfDataStoreDB.h
+++ b/src/ConfDataStoreDB.h
@@ -419,6 +419,9 @@ namespace FILEDB
      */
     virtual bool exist(const K& key)
     {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
-- 
2.43.0


From 638e6aa670939b9b2e8279e947574162ff0f2003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:07 +0000
Subject: [PATCH 32/59] fix: a key or datum of another type left a cursor open,
 and its page out of later flushes

---
 src/DBCursor.h |  2 ++
 src/DBFunc.h   | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/DBCursor.h b/src/DBCursor.h
index 64e4607..4838dd8 100644
--- a/src/DBCursor.h
+++ b/src/DBCursor.h
@@ -323,6 +323,8 @@ namespace FILEDB
       }
       catch (SerializeException& e) {
 	std::cerr << "Fatal: DB cursor error: " << e.what () << std::endl;
+	free (key.data); free (data.data);
+	crp->close (crp);
       }
       return DBKeyIterator<T, D>(DBCursor(), mykey, 1);
     }
diff --git a/src/DBFunc.h b/src/DBFunc.h
index 56f797e..f05e954 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -308,6 +308,7 @@ namespace FILEDB
 	free(dbdata.data);
       }
       catch (SerializeException& e) {
+	free(dbdata.data);
 	ret = -1;
 	throw;
       }
@@ -404,6 +405,9 @@ namespace FILEDB
 	throw FileHashDBException ("DBFunc AllKeys", "Cursor next error");
     }
     catch (SerializeException& e) {
+      // the cursor would keep its page in use
+      free (dbkey.data);
+      crp->close(crp);
       throw;
     } 
     
@@ -469,6 +473,9 @@ namespace FILEDB
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
     catch (SerializeException& e) {
+      // the cursor would keep its page in use
+      free (dbkey.data); free (dbdata.data);
+      crp->close(crp);
       throw;
     }
     
@@ -522,6 +529,9 @@ namespace FILEDB
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
     catch (SerializeException& e) {
+      // the cursor would keep its page in use
+      free (dbkey.data); free (dbdata.data);
+      crp->close(crp);
       throw;
     }
     
-- 
2.43.0


From e41a2e2d5061d82ffd30ca314938b2c951d169fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:02 +0000
Subject: [PATCH 33/59] fix: a bucket split that could not read its pages lost
 keys and reported success

---
 filehash/ffdb_page.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index c57bf87..d822979 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1917,7 +1917,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
 {
   pgno_t page, ovflpage, nextpage, tp;
   void *pagep, *opagep, *npagep;
-  int needovfl, reuse;
+  int needovfl, reuse, status = 0;
 
   /* First grab a page related to this bucket */
   npagep = pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -1933,7 +1933,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     /* check whether this pair should fit on this page */
     /* the following macro does not care the data part */
     if (PAIRFITS (npagep, key, dumb)) {
-      _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
+      status = _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
       needovfl = 0;
       /* release this page */
       ffdb_put_page (hashp, pagep, HASH_BUCKET_PAGE, 1);
@@ -1998,12 +1998,12 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     ffdb_put_page (hashp, pagep, TYPE(pagep), 1); 
 
     /* add key and data pointer to this page */
-    _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
+    status = _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
 
     /* release this page */
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
@@ -2022,6 +2022,7 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
   unsigned char *kdata = 0;
   ffdb_datap_t* datap = 0;
   int base_page = 1;
+  int status = 0;
 
   /* This page may not be in memory or in use so FFDB_CREATE flag has to be 
    * used
@@ -2052,9 +2053,9 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
       /* Now we need to put this key and data pointer pair */
       if (_ffdb_call_hash (hashp, key.data, key.size) == oldbucket) 
 	/* this stays with old page without changing data pointer value */
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
+	status |= _ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
       else 
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+	status |= _ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
     }
     
     /* get next page number */
@@ -2073,7 +2074,11 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
     else
       break;
   }
-  return 0;
+  if (!temp_pagep) {
+    fprintf (stderr, "Cannot get overflow page %d of bucket %d\n", nextpage, oldbucket);
+    return -1;
+  }
+  return status ? -1 : 0;
 }
 
 
-- 
2.43.0


From 62cbd5814111b4a4c9a9ffeddb68ed557c300db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:40 +0000
Subject: [PATCH 34/59] fix: page moving that failed on close or open was
 reported as success

---
 filehash/ffdb_hash.c | 18 ++++++++++++++++--
 filehash/ffdb_page.c | 28 +++++++++++++++++++++-------
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index bc4ab45..609ee7d 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -265,8 +265,12 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
 {
   int save_errno = 0;
 
+  /* pages that cannot be moved: keep the file as long as it is */
   if (hashp->rearrange_pages && hashp->save_file)
-    ffdb_rearrage_pages_on_close (hashp);
+    if (ffdb_rearrage_pages_on_close (hashp) != 0) {
+      save_errno = errno ? errno : EIO;
+      hashp->rearrange_pages = 0;
+    }
 
 #ifdef _FFDB_STATISTICS
   { 
@@ -960,7 +964,17 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
    * new insert is expected or some pages was moved previously
    */
   if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) 
-    ffdb_rearrage_pages_on_open (hashp);
+    if (ffdb_rearrage_pages_on_open (hashp) != 0) {
+      ret = errno ? errno : EIO;
+      ffdb_pagepool_close (hashp->mp);
+      close (hashp->fp);
+      free (hashp->fname);
+      free (hashp->split_buf);
+      free (hashp);
+      free (dbp);
+      errno = ret;
+      return 0;
+    }
 
 
   /* Find out current data page which is the last data page we are using */
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index d822979..ad225b2 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2253,6 +2253,7 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
  * @param oldlast the last page of old page to be moved
  * @param newfirst first page of new pages to move into
  * @param newlast last page of new pages to move into
+ * @param failed is set when the pages cannot all be moved
  *
  * @return last page number on the linked list after successful move. 
  * If there is no data pages being moved, INVALID_PGNO is returned
@@ -2260,7 +2261,7 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
 static pgno_t
 _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 		  pgno_t oldfirst, pgno_t oldlast,
-		  pgno_t newfirst, pgno_t newlast)
+		  pgno_t newfirst, pgno_t newlast, int* failed)
 {
   pgno_t dlast, page, rpage, tp;
   pgno_t prevp, nextp;
@@ -2279,6 +2280,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     if (!pagep) {
       fprintf (stderr, "Cannot grab old page %d to move to new page %d.\n",
 	       page, rpage);
+      *failed = 1;
       return dlast;
     }
 
@@ -2302,6 +2304,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!nextpagep) {
 	  fprintf (stderr, "Cannot get next page %d not in the moving list for page %d\n", nextp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+	  *failed = 1;
 	  return dlast;
 	}
 
@@ -2331,6 +2334,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!prevpagep) {
 	  fprintf (stderr, "Cannot get previous page %d not in the moving list for page %d\n", prevp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+	  *failed = 1;
 	  return dlast;
 	}
 
@@ -2359,6 +2363,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					  newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
+	*failed = 1;
 	return dlast;
       }
 #ifdef _FFDB_DEBUG
@@ -2375,6 +2380,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					   newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
+	*failed = 1;
 	return dlast;
       }
 #ifdef _FFDB_DEBUG
@@ -2405,6 +2411,7 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   pgno_t dlast, dfirst;
   unsigned int num_unused, num_pages;
   unsigned int num_page_moved;
+  int failed = 0;
 
   /* Find out how many pages are not used by reguler hash pages */
   num_unused = hashp->hdr.high_mask - hashp->hdr.max_bucket;
@@ -2451,14 +2458,17 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
 
   /* move data pages first */
   _ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &failed);
 
   /* move overflow page next */
   _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &failed);
 
   _ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &failed);
+
+  if (failed)
+    return -1;
 
   hashp->hdr.num_moved_pages = num_page_moved;
 
@@ -2476,6 +2486,7 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
   pgno_t oldfirst, oldlast, newfirst, newlast;
   pgno_t lastdpage;
   unsigned int num_page_moved;
+  int failed = 0;
 
   /* Check whether any pages has been moved when the database is closed */
   if (hashp->hdr.num_moved_pages == 0)
@@ -2507,14 +2518,17 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 
   /* Move data pages first */
   lastdpage = _ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
-				newfirst, newlast);
+				newfirst, newlast, &failed);
 
   /* move overflow page next */
   _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+		    newfirst, newlast, &failed);
   
   _ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+		    newfirst, newlast, &failed);
+
+  if (failed)
+    return -1;
 
   /* If there are no data pages moved, unlikely but possible */
   if (lastdpage == INVALID_PGNO) 
-- 
2.43.0


From 6f1b200bb8b80aa95dcf35e464f2d1eb1d202105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:04 +0000
Subject: [PATCH 35/59] fix: a page that could not be flushed before its
 deletion stayed pinned and was never written

---
 filehash/ffdb_page.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index ad225b2..abcb1c6 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1353,7 +1353,10 @@ ffdb_delete_page (ffdb_htab_t* hashp, void* pagep,
     if (deleteit) {
       /* if this page need to be deleted */
       _ffdb_init_page (hashp, pagep, CURR_PGNO(pagep), HASH_DELETED_PAGE);
-      return ffdb_pagepool_delete (hashp->mp, pagep); 
+      /* a page that cannot be flushed stays in the cache: do not keep it */
+      if (ffdb_pagepool_delete (hashp->mp, pagep) != 0) 
+	return ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
+      return 0;
     }
     else 
       return ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
@@ -2236,8 +2239,10 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
       page++;
       continue;
     }
-    if (ffdb_pagepool_delete (hashp->mp, pagep) != 0) 
+    if (ffdb_pagepool_delete (hashp->mp, pagep) != 0) {
       fprintf (stderr, "Cannot delete a moved page %d\n", page);
+      ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+    }
     page++;
   }
 }
-- 
2.43.0


From 00feb0cbf389ed7fc17f27ee6ede6fda00d96258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 36/59] fix: a short write of a page was taken for success by
 the callers that return errno

---
 filehash/ffdb_pagepool.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 8be650e..6cbfde4 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -289,8 +289,12 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   if (lseek(pgp->fd, offset, SEEK_SET) != offset) 
     ret = -1;
   else {
-    if ((unsigned int)(nbytes = write(pgp->fd, image, pgp->pagesize)) != pgp->pagesize) 
+    if ((unsigned int)(nbytes = write(pgp->fd, image, pgp->pagesize)) != pgp->pagesize) {
+      /* a short write does not set errno, which callers return */
+      if (nbytes >= 0)
+	errno = EIO;
       ret = -1;
+    }
   }
 
   if (image != bp->page)
-- 
2.43.0


From 48441d7f78c08ede8e25a48a8422b91740697adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:51 +0000
Subject: [PATCH 37/59] fix: a refused ensemble insert fixed the element size
 of the handle

---
 src/AllConfStoreDB.h | 44 ++++++++++++--------------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index c76abf9..87a712b 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -399,20 +399,6 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
-	std::string tmpstr;
-	try {
-	  v[0].writeObject (tmpstr);
-	}
-	catch (SerializeException& e) {
-	  std::cerr << "Serialize the first element in insert error: " << e.what () 
-		    << std::endl;
-	  return -1;
-	}
-	bytesize_ = tmpstr.size();
-      }
-
       // combine every element in the array into a string
       std::string dstr;
       for (unsigned int i = 0; i < v.size(); i++) {
@@ -431,6 +417,10 @@ namespace FILEDB
 	dstr.append (elem);
       }
 
+      // all elements are the same: if bytesize_ is not set, we set it now
+      if (bytesize_ == 0) 
+	bytesize_ = dstr.size()/v.size();
+
       // now insert this string into database
       try {
 	ret = insertData< K > (this->db->dbh_, key, dstr);
@@ -457,20 +447,6 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
-	std::string tmpstr;
-	try {
-	  v[0].writeObject (tmpstr);
-	}
-	catch (SerializeException& e) {
-	  std::cerr << "Serialize the first element in insert error: " << e.what () 
-		    << std::endl;
-	  return -1;
-	}
-	bytesize_ = tmpstr.size();
-      }
-
       // combine every element in the array into a string
       std::string dstr;
       for (unsigned int i = 0; i < v.size(); i++) {
@@ -489,6 +465,10 @@ namespace FILEDB
 	dstr.append (elem);
       }
 
+      // all elements are the same: if bytesize_ is not set, we set it now
+      if (bytesize_ == 0) 
+	bytesize_ = dstr.size()/v.size();
+
       // now insert this string into database
       try {
 	ret = insertData(this->db->dbh_, key, dstr);
@@ -516,10 +496,6 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) 
-	bytesize_ = v[0].size();
-
       // combine the vector of string into one big string
       std::string dstr;
       for (unsigned int i = 0; i < v.size(); i++) {
@@ -530,6 +506,10 @@ namespace FILEDB
 	dstr.append (v[i]);
       }
 
+      // all elements are the same: if bytesize_ is not set, we set it now
+      if (bytesize_ == 0) 
+	bytesize_ = dstr.size()/v.size();
+
       ret = this->insertBinary (key, dstr);
       if (ret != 0) {
 	std::cerr << __FILE__ << "cannot insert binary data" << std::endl;
-- 
2.43.0


From f07175ebcf369e946a154faa169bba129a77f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:34 +0000
Subject: [PATCH 38/59] fix: a backward cursor crashed when the page of a
 bucket could not be read

---
 filehash/ffdb_page.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index abcb1c6..f2e3f1b 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -3015,7 +3015,12 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	/* Get new page */
 	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
-
+	if (!(cursor->item.pagep)) {
+	  fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
+		   cursor->item.bucket);
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
 
 	/* Skip empty buckets */
 	while (NUM_ENT(cursor->item.pagep) == 0) {
-- 
2.43.0


From b34305036e4ee87bebdf3596763ce9b9099a82c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:00 +0000
Subject: [PATCH 39/59] fix: threads opening and closing cursors corrupted the
 list of cursors

---
 filehash/ffdb_hash.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 609ee7d..55e89ba 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1464,7 +1464,10 @@ _ffdb_hash_cursor (const FFDB_DB* dbp, ffdb_cursor_t** c, unsigned int type)
   inc->pcursor = nc;
   memset (&inc->item, 0, sizeof(ffdb_hent_t));  
   inc->item.status = ITEM_CLEAN;
+  /* the queue is shared by all threads using this database */
+  FFDB_LOCK(inc->hashp->lock);
   FFDB_TAILQ_INSERT_TAIL(&(inc->hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(inc->hashp->lock);
 
   /* Set internal pointer */
   nc->internal = inc;
@@ -1671,7 +1674,9 @@ _ffdb_cursor_close (ffdb_cursor_t* cursor)
   ffdb_crs_t* inc = (ffdb_crs_t *)cursor->internal;
   ffdb_htab_t* hashp = inc->hashp;
 
+  FFDB_LOCK(hashp->lock);
   FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(hashp->lock);
 
   /* Check whether there is a page need to be released */
   if (inc->item.pagep) {
-- 
2.43.0


From 7a7685aabf50dee525f4c6a0f8f139764162131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:00 +0000
Subject: [PATCH 40/59] fix: a new page got the number of a page that had been
 renumbered

---
 filehash/ffdb_pagepool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6cbfde4..b530082 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1405,6 +1405,10 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
 #endif
   }
 
+  /* the number is in use now, and may not be given to a new page */
+  if (newpagenum > pgp->maxpgno)
+    pgp->maxpgno = newpagenum;
+
   /**
    * Clean out old disk content
    */
-- 
2.43.0


From 0d7c2ae9a75d432723703dc2d0c56a8225f9ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:00 +0000
Subject: [PATCH 41/59] fix: failed writes were not reported when closing the
 page cache or moving a page

---
 filehash/ffdb_page.c     |  3 ++-
 filehash/ffdb_pagepool.c | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index f2e3f1b..f4ec260 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2395,7 +2395,8 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
       
 
     /* Release this page and update page number */
-    ffdb_pagepool_change_page (hashp->mp, pagep, CURR_PGNO(pagep));
+    if (ffdb_pagepool_change_page (hashp->mp, pagep, CURR_PGNO(pagep)) != 0)
+      *failed = 1;
 
     /* update local variables */
     rpage++;
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index b530082..87fc18b 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1317,6 +1317,7 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
   struct _ffdb_hqh* head;
   ffdb_bkt_t* bp;
   unsigned int oldpagenum;
+  int ret = 0;
 
   FFDB_LOCK(pgp->lock);
 #ifdef _FFDB_STATISTICS
@@ -1412,10 +1413,12 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
   /**
    * Clean out old disk content
    */
-  _ffdb_clean_page_ondisk (pgp, oldpagenum);
+  errno = 0;
+  if (_ffdb_clean_page_ondisk (pgp, oldpagenum) != 0)
+    ret = errno ? errno : EIO;
 
   FFDB_UNLOCK(pgp->lock);
-  return 0;
+  return ret;
 }
 
 /**
@@ -1526,9 +1529,10 @@ int
 ffdb_pagepool_close (ffdb_pagepool_t* pgp)
 {
   ffdb_bkt_t* bp;
+  int ret;
 
   /* First Sync Everything to disk */
-  ffdb_pagepool_sync (pgp);
+  ret = ffdb_pagepool_sync (pgp);
 
   FFDB_LOCK(pgp->lock);
   
@@ -1551,7 +1555,7 @@ ffdb_pagepool_close (ffdb_pagepool_t* pgp)
   FFDB_LOCK_FINI(pgp->lock);
 
   free (pgp);
-  return 0;
+  return ret;
 }
 
 /**
-- 
2.43.0


From a7346db1a8f81832c4a2d41a6500c4e83cad2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:42 +0000
Subject: [PATCH 42/59] fix: an ensemble insert that failed does not settle the
 element size

---
 src/AllConfStoreDB.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 87a712b..fa089a5 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -417,10 +417,6 @@ namespace FILEDB
 	dstr.append (elem);
       }
 
-      // all elements are the same: if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) 
-	bytesize_ = dstr.size()/v.size();
-
       // now insert this string into database
       try {
 	ret = insertData< K > (this->db->dbh_, key, dstr);
@@ -429,6 +425,10 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      // all elements are the same: if bytesize_ is not set, we set it now
+      if (ret == 0 && bytesize_ == 0) 
+	bytesize_ = dstr.size()/v.size();
+
       return ret;
     }
 
@@ -465,10 +465,6 @@ namespace FILEDB
 	dstr.append (elem);
       }
 
-      // all elements are the same: if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) 
-	bytesize_ = dstr.size()/v.size();
-
       // now insert this string into database
       try {
 	ret = insertData(this->db->dbh_, key, dstr);
@@ -477,6 +473,10 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      // all elements are the same: if bytesize_ is not set, we set it now
+      if (ret == 0 && bytesize_ == 0) 
+	bytesize_ = dstr.size()/v.size();
+
       return ret;
     }
 
@@ -506,14 +506,14 @@ namespace FILEDB
 	dstr.append (v[i]);
       }
 
-      // all elements are the same: if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) 
-	bytesize_ = dstr.size()/v.size();
-
       ret = this->insertBinary (key, dstr);
       if (ret != 0) {
 	std::cerr << __FILE__ << "cannot insert binary data" << std::endl;
       }
+      // all elements are the same: if bytesize_ is not set, we set it now
+      if (ret == 0 && bytesize_ == 0) 
+	bytesize_ = dstr.size()/v.size();
+
       return ret;
     }
 
-- 
2.43.0


From 95b6c41824311ffa9fdf23ca73989b63e9b1bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:18 +0000
Subject: [PATCH 43/59] fix: ensemble databases leaked the configuration
 information they read

---
 src/AllConfStoreDB.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index fa089a5..7d5338a 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -208,7 +208,8 @@ namespace FILEDB
 	ffdb_set_all_configs (this->db->dbh_, &*allcfgs_);
       }
       else {
-	// update configuration information
+	// update configuration information, which replaces what is kept here
+	free (allcfgs_->allconfigs);
 	ffdb_get_all_configs (this->db->dbh_, &*allcfgs_);
 	nbin_ = allcfgs_->numconfigs;
 	if (nbin_ == 0) {
@@ -788,6 +789,7 @@ namespace FILEDB
 
 	  configs.push_back (cf);
 	}
+	free (allcfigs.allconfigs);
       }
       return stat;
     }
-- 
2.43.0


From eca049bcece975d3d1d6e56ab4cfb7f97c386694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:29 +0000
Subject: [PATCH 44/59] fix: memory was lost when reading the configurations
 failed

---
 filehash/ffdb_hash.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 55e89ba..ea091e1 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1530,7 +1530,13 @@ ffdb_get_all_configs (const FFDB_DB* db, ffdb_all_config_info_t* configs)
   }
   
   /* No need to lock the whole process because each page is locked */
-  return ffdb_get_configs (hashp, configs);
+  if (ffdb_get_configs (hashp, configs) != 0) {
+    free (configs->allconfigs);
+    configs->allconfigs = 0;
+    configs->numconfigs = 0;
+    return -1;
+  }
+  return 0;
 }
 
 unsigned int
-- 
2.43.0


From 091b2f0140e5e6669455ecae70b9e18bb82c9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:11 +0000
Subject: [PATCH 45/59] fix: removing a key reported success and left the key
 in place

---
 filehash/ffdb_hash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index ea091e1..ecafffd 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1378,7 +1378,9 @@ _ffdb_hash_delete (const FFDB_DB* dbp, const FFDB_DBT* key, unsigned int flag)
   (void)dbp;
   (void)key;
   (void)flag;
-  return 0;
+  /* not supported: the key stays, so this must not look like a success */
+  errno = ENOTSUP;
+  return -1;
 }
 
 
-- 
2.43.0


From 2ab54e2e3ffce5e9e12449dc5a20b1cd22421f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:22 +0000
Subject: [PATCH 46/59] fix: a step of a data cursor reported success and
 returned nothing

---
 filehash/ffdb_hash.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index ecafffd..4d1bc3a 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1670,7 +1670,10 @@ _ffdb_cursor_get  (ffdb_cursor_t* cursor, FFDB_DBT* key,
     FFDB_UNLOCK(icrs->lock);
   }
   else {
-    status = 0;
+    /* not supported: nothing is returned, so this must not look like a success */
+    fprintf (stderr, "Unsupported cursor type %d\n", cursor->type);
+    errno = ENOTSUP;
+    status = -1;
   }
   return status;
 }
-- 
2.43.0


From 4bd682f9ca17b319629a9f34450a73b852959dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:22 +0000
Subject: [PATCH 47/59] fix: a refused open of a page cache kept the file open,
 or reported success for wrong flags

---
 filehash/ffdb_pagepool.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 87fc18b..bf5149d 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -547,7 +547,7 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
 		    const unsigned int pagesize,
 		    const unsigned int maxcache)
 {
-  int lflags, fd;
+  int lflags, ret, fd = -1;
   struct stat sb;
 
   /* check whether some other threads already opened this file */
@@ -563,6 +563,7 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
   unsigned int ok_flags = FFDB_CREATE | FFDB_RDONLY | FFDB_DIRECT;
   if (FFDB_FLAG_ISSET(flags, ~ok_flags)) {
     fprintf (stderr, "ffdb_pagepool_open wrong flags specification\n");
+    errno = EINVAL;
     goto openerr;
   }
   
@@ -644,8 +645,11 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
   return 0;
 
  openerr:
+  ret = errno;
+  if (fd > 0)
+    close (fd);
   FFDB_UNLOCK(pgp->lock);
-  return errno;
+  return ret;
 }
 
 
-- 
2.43.0


From 37495346ff2ecaaec6030c6ea16afc2552b69cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:07 +0000
Subject: [PATCH 48/59] fix: a cursor stepping back did not return to the key
 before

FFDB_PREV walked the pages of a bucket first to last, and only the keys within
a page last to first: after some FFDB_NEXT, FFDB_PREV at the first key of an
overflow page went on to a later page, and left out or repeated keys.
---
 filehash/ffdb_page.c | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index f4ec260..5a4dd41 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2830,12 +2830,30 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
 /***************************************************************************
  *         Cursor related routines                                         *
  ***************************************************************************/
+/**
+ * Get the last page of a bucket
+ */
+static void *
+_ffdb_cursor_last_page (ffdb_htab_t* hashp, pgno_t bucket, pgno_t* pgno)
+{
+  pgno_t next;
+  void*  pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 0, pgno);
+
+  /* an empty bucket has no other page */
+  while (pagep && NUM_ENT(pagep) > 0 && NEXT_PGNO(pagep) != INVALID_PGNO) {
+    next = NEXT_PGNO(pagep);
+    ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+    pagep = ffdb_get_page (hashp, next, HASH_RAW_PAGE, 0, pgno);
+  }
+  return pagep;
+}
+
 int 
 ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 			 FFDB_DBT* key, FFDB_DBT* data,
 			 unsigned int flags)
 {
-  pgno_t bucket, tp, nextp;
+  pgno_t bucket, tp, nextp, prevp;
   unsigned char* ekdata;
   unsigned int   eksize;
 
@@ -2887,8 +2905,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     }
     bucket = hashp->hdr.max_bucket;
     
-    cursor->item.pagep = ffdb_get_page (hashp, bucket,
-					HASH_BUCKET_PAGE, 0, &tp);
+    cursor->item.pagep = _ffdb_cursor_last_page (hashp, bucket, &tp);
     if (!(cursor->item.pagep)) {
       fprintf (stderr, "Cannot get page for the last bucket\n");
       cursor->item.status = ITEM_ERROR;
@@ -2906,8 +2923,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       /* Get next bucket */
       bucket--;
 
-      cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
-					  0, &tp);
+      cursor->item.pagep = _ffdb_cursor_last_page (hashp, bucket, &tp);
       if (!(cursor->item.pagep)) {
 	fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
 		 bucket);
@@ -3000,22 +3016,21 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
   else if (flags == FFDB_PREV) {
     /* We have reached the beginning of the key page */
     if (cursor->item.pgndx == 0) {
-      /* Remember next page since we always go to the bucket page */
-      nextp = NEXT_PGNO(cursor->item.pagep);
+      /* Remember the page before this one in the same bucket */
+      prevp = PREV_PGNO(cursor->item.pagep);
       /* put this page out */
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      if (cursor->item.bucket == 0 && nextp == INVALID_PGNO) {
+      if (cursor->item.bucket == 0 && prevp == INVALID_PGNO) {
 	/* We are done */
 	cursor->item.status = ITEM_NO_MORE;
 	cursor->item.pagep = 0;
 	return FFDB_NOT_FOUND;
       }
-      if (nextp == INVALID_PGNO) {
+      if (prevp == INVALID_PGNO) {
 	/* decrease bucket by one */
 	cursor->item.bucket--;
 	/* Get new page */
-	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
-					    HASH_BUCKET_PAGE, 0, &tp);
+	cursor->item.pagep = _ffdb_cursor_last_page (hashp, cursor->item.bucket, &tp);
 	if (!(cursor->item.pagep)) {
 	  fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
 		   cursor->item.bucket);
@@ -3038,8 +3053,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	  cursor->item.pagep = 0;
 	  cursor->item.bucket--;
 
-	  cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket, 
-					      HASH_BUCKET_PAGE, 0, &tp);
+	  cursor->item.pagep = _ffdb_cursor_last_page (hashp, cursor->item.bucket, &tp);
 	  if (!(cursor->item.pagep)) {
 	    fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
 		     cursor->item.bucket);
@@ -3050,8 +3064,8 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	}
       }
       else {
-	/* Get next page */
-	cursor->item.pagep = ffdb_get_page (hashp, nextp,
+	/* Get previous page */
+	cursor->item.pagep = ffdb_get_page (hashp, prevp,
 					    HASH_RAW_PAGE, 0, &tp);
 	if (!cursor->item.pagep) {
 	  fprintf (stderr, "Cannot get page for prev cursor bucket %d\n",
-- 
2.43.0


From 2330335fcb752a5d88604d8c72398ca1dd131d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:01 +0000
Subject: [PATCH 49/59] fix: updating one member of an ensemble replaced the
 other members by default values

In a database that was empty when it was opened, every update stored a new
ensemble of default elements, also for a key that had been stored meanwhile.
---
 src/AllConfStoreDB.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 7d5338a..204c760 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -538,7 +538,8 @@ namespace FILEDB
 	return -1;
       }
 
-      if (empty_) {
+      // a key that was stored since the empty database was opened is updated
+      if (empty_ && !this->exist (key)) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
 	thr[index] = v;
-- 
2.43.0


From 3f72b216abc6d97ef973b5b229eb2e12551c63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 50/59] fix: a listing that failed left its cursor open, and
 the page it was on was not written at close

---
 src/DBFunc.cpp | 10 ++++++++--
 src/DBFunc.h   | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/DBFunc.cpp b/src/DBFunc.cpp
index 3a717f0..c6644fd 100644
--- a/src/DBFunc.cpp
+++ b/src/DBFunc.cpp
@@ -108,8 +108,11 @@ namespace FILEDB
 	dbkey.data = dbdata.data = 0;
 	dbkey.size = dbdata.size = 0;
       }
-      if (ret != FFDB_NOT_FOUND) 
+      if (ret != FFDB_NOT_FOUND) {
+	// the cursor would keep its page in use
+	crp->close(crp);
 	throw FileHashDBException ("DBFunc binaryAllKeys", "Cursor Next Error");
+      }
     }
     catch (SerializeException& e) {
       throw;
@@ -160,8 +163,11 @@ namespace FILEDB
 	dbkey.data = dbdata.data = 0;
 	dbkey.size = dbdata.size = 0;
       }
-      if (ret != FFDB_NOT_FOUND) 
+      if (ret != FFDB_NOT_FOUND) {
+	// the cursor would keep its page in use
+	crp->close(crp);
 	throw FileHashDBException ("DBFunc binaryAllPairs", "Cursor Next Error");
+      }
     }
     catch (SerializeException& e) {
       throw;
diff --git a/src/DBFunc.h b/src/DBFunc.h
index f05e954..03efb76 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -401,8 +401,11 @@ namespace FILEDB
 	dbkey.data = 0;
 	dbkey.size = 0;
       }
-      if (ret != FFDB_NOT_FOUND) 
+      if (ret != FFDB_NOT_FOUND) {
+	// the cursor would keep its page in use
+	crp->close(crp);
 	throw FileHashDBException ("DBFunc AllKeys", "Cursor next error");
+      }
     }
     catch (SerializeException& e) {
       // the cursor would keep its page in use
@@ -469,8 +472,11 @@ namespace FILEDB
 	  break;
 	}
       }
-      if (ret != FFDB_NOT_FOUND) 
+      if (ret != FFDB_NOT_FOUND) {
+	// the cursor would keep its page in use
+	crp->close(crp);
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
+      }
     }
     catch (SerializeException& e) {
       // the cursor would keep its page in use
@@ -525,8 +531,11 @@ namespace FILEDB
 	dbkey.data = dbdata.data = 0;
 	dbkey.size = dbdata.size = 0;
       }
-      if (ret != FFDB_NOT_FOUND) 
+      if (ret != FFDB_NOT_FOUND) {
+	// the cursor would keep its page in use
+	crp->close(crp);
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
+      }
     }
     catch (SerializeException& e) {
       // the cursor would keep its page in use
@@ -570,8 +579,11 @@ namespace FILEDB
 	return 0;
       }
 
-      if (ret != FFDB_NOT_FOUND) 
+      if (ret != FFDB_NOT_FOUND) {
+	// the cursor would keep its page in use
+	crp->close(crp);
 	throw FileHashDBException ("DBFunc isDatabaseEmpty", "cursor first error");
+      }
     }
     catch (SerializeException& e) {
       throw;
-- 
2.43.0


From 0ffe5916114cb92fb57c31e56191b44e09389aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 51/59] fix: an ensemble database that cannot hold the given
 number of configurations was opened as if it could

---
 src/AllConfStoreDB.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 204c760..7e8f97b 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -205,7 +205,12 @@ namespace FILEDB
 	}
 
 	// update configuration information
-	ffdb_set_all_configs (this->db->dbh_, &*allcfgs_);
+	if (ffdb_set_all_configs (this->db->dbh_, &*allcfgs_) != 0 &&
+	    (open_flags & O_ACCMODE) != O_RDONLY) {
+	  std::cerr << "This database cannot keep the configuration information." << std::endl;
+	  this->close ();
+	  return -1;
+	}
       }
       else {
 	// update configuration information, which replaces what is kept here
-- 
2.43.0


From c277d87da57e5e4eeb826981959121f4ca51b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 52/59] fix: the cache size set for several databases at once
 was ignored

---
 src/AllConfStoreMultipleDB.h  |  8 +++++++-
 src/ConfDataStoreMultipleDB.h | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index 808838e..fe06a81 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -57,12 +57,15 @@ namespace FILEDB
     // The array of DBs
     std::vector< AllConfStoreDB<K,D> > dbs_;
 
+    // Cache size of each DB, which is set when the DBs are opened
+    unsigned int cachesize_;
+
   public:
 
     /**
      * Empty constructor for a data store for multiple DBs
      */
-    AllConfStoreMultipleDB (void) {}
+    AllConfStoreMultipleDB (void) : cachesize_ (0) {}
 
     /**
      * Destructor
@@ -79,6 +82,7 @@ namespace FILEDB
      */
     virtual void setCacheSize (const unsigned int size)
     {
+      cachesize_ = size;
       for(int i=0; i < dbs_.size(); ++i)
 	dbs_[i].setCacheSize(size);
     }
@@ -124,6 +128,8 @@ namespace FILEDB
       int ret = 0;
       for(int i=0; i < dbs_.size(); ++i)
       {
+	if (cachesize_ > 0)
+	  dbs_[i].setCacheSize(cachesize_);
 	ret = dbs_[i].open(files[i], O_RDONLY, 0400);
 	if (ret != 0)
 	  return ret;
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 30e41df..b95bd2f 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -57,12 +57,16 @@ namespace FILEDB
     // The array of DBs
     std::vector< ConfDataStoreDB<K,D> > dbs_;
 
+    // Cache size of each DB, which is set when the DBs are opened
+    unsigned int cachesize_;
+    unsigned int cachesizeMB_;
+
   public:
 
     /**
      * Empty constructor for a data store for multiple DBs
      */
-    ConfDataStoreMultipleDB (void) {}
+    ConfDataStoreMultipleDB (void) : cachesize_ (0), cachesizeMB_ (0) {}
 
     /**
      * Destructor
@@ -79,6 +83,8 @@ namespace FILEDB
      */
     virtual void setCacheSize (const unsigned int size)
     {
+      cachesize_ = size;
+      cachesizeMB_ = 0;
       for(int i=0; i < dbs_.size(); ++i)
 	dbs_[i].setCacheSize(size);
     }
@@ -93,6 +99,8 @@ namespace FILEDB
      */
     virtual void setCacheSizeMB (const unsigned int size)
     {
+      cachesize_ = 0;
+      cachesizeMB_ = size;
       for(int i=0; i < dbs_.size(); ++i)
 	dbs_[i].setCacheSizeMB(size);
     }
@@ -138,6 +146,10 @@ namespace FILEDB
       int ret = 0;
       for(int i=0; i < dbs_.size(); ++i)
       {
+	if (cachesize_ > 0)
+	  dbs_[i].setCacheSize(cachesize_);
+	else if (cachesizeMB_ > 0)
+	  dbs_[i].setCacheSizeMB(cachesizeMB_);
 	ret = dbs_[i].open(files[i], O_RDONLY, 0400);
 	if (ret != 0)
 	  return ret;
-- 
2.43.0


From 02e4c4174a67e5118b9638e8a0b7b67bde25ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:12 +0000
Subject: [PATCH 53/59] fix: changes on the page a cursor is on were not
 written by sync and close

---
 filehash/ffdb_hash.c     |  6 ++++--
 filehash/ffdb_pagepool.c | 38 ++++++++++++++++++++++++++++++--------
 filehash/ffdb_pagepool.h |  9 +++++++++
 3 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 4d1bc3a..b08f65f 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -310,7 +310,8 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
 #ifdef _FFDB_STATISTICS
   ffdb_pagepool_stat (hashp->mp);
 #endif
-  if (ffdb_pagepool_sync (hashp->mp) != 0)
+  /* a page a cursor is on is not being changed, and is written as well */
+  if (ffdb_pagepool_sync_all (hashp->mp) != 0)
     if (save_errno == 0)
       save_errno = errno ? errno : EIO;
   ffdb_pagepool_close (hashp->mp);
@@ -1425,7 +1426,8 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
-  if (ffdb_pagepool_sync (hashp->mp) != 0) {
+  /* a page a cursor is on is not being changed, and is written as well */
+  if (ffdb_pagepool_sync_all (hashp->mp) != 0) {
     FFDB_UNLOCK(hashp->lock);
     return -1;
   }
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index bf5149d..838a5b0 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -128,7 +128,8 @@ void ffdb_dump_stack (void)
  * Flush out some pages in order of page numbers
  */
 static int 
-_ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages);
+_ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages,
+		       int inuse);
 
 /* Test for valid page sizes. */
 #define	IS_VALID_PAGESIZE(x)						\
@@ -448,7 +449,7 @@ _ffdb_pagepool_reuse_bkt (ffdb_pagepool_t* pgp, ffdb_bkt_t** retbp)
 #ifdef _FFDB_DEBUG
     fprintf (stderr, "Flush %d pages out\n", pgp->maxcache/FFDB_WRITE_FRAC);
 #endif
-    _ffdb_pagepool_sync_i (pgp, pgp->maxcache/FFDB_WRITE_FRAC);
+    _ffdb_pagepool_sync_i (pgp, pgp->maxcache/FFDB_WRITE_FRAC, 0);
   }
 
   return ret;
@@ -1428,9 +1429,11 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
 /**
  * Flush number of pages to disk
  * If numpages == 0, flush all dirty pages to disk
+ * If inuse != 0, pages in use are flushed as well
  */
 static int
-_ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
+_ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages,
+		       int inuse)
 {
   unsigned int num;
   int ret = 0;
@@ -1446,8 +1449,8 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
    */
   num = 0;
   FFDB_CIRCLEQ_FOREACH(bp, &pgp->lqh, lq){
-    if (!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) &&
-	bp->waiters == 0 && 
+    if ((inuse || (!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) &&
+		   bp->waiters == 0)) &&
 	FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_DIRTY)) {
       /* insert this bucket into a single linked list */
       sbp = (ffdb_sbkt_t *)malloc(sizeof(ffdb_sbkt_t));
@@ -1511,13 +1514,32 @@ ffdb_pagepool_sync (ffdb_pagepool_t* pgp)
 
   FFDB_LOCK (pgp->lock);
 
-  ret = _ffdb_pagepool_sync_i (pgp, 0);
+  ret = _ffdb_pagepool_sync_i (pgp, 0, 0);
 
   FFDB_UNLOCK (pgp->lock);
 
   return ret;
 }
 
+/**
+ * Flush all dirty pages back to the back end file, those in use included.
+ * The caller makes sure that nobody is changing a page.
+ *
+ * @param  pgp cache page pool pointer
+ */
+int
+ffdb_pagepool_sync_all (ffdb_pagepool_t* pgp)
+{
+  int ret;
+
+  FFDB_LOCK (pgp->lock);
+
+  ret = _ffdb_pagepool_sync_i (pgp, 0, 1);
+
+  FFDB_UNLOCK (pgp->lock);
+
+  return ret;
+}
 
 
 /**
@@ -1535,8 +1557,8 @@ ffdb_pagepool_close (ffdb_pagepool_t* pgp)
   ffdb_bkt_t* bp;
   int ret;
 
-  /* First Sync Everything to disk */
-  ret = ffdb_pagepool_sync (pgp);
+  /* First Sync Everything to disk, pages in use are gone after this */
+  ret = ffdb_pagepool_sync_all (pgp);
 
   FFDB_LOCK(pgp->lock);
   
diff --git a/filehash/ffdb_pagepool.h b/filehash/ffdb_pagepool.h
index a218397..b55491b 100644
--- a/filehash/ffdb_pagepool.h
+++ b/filehash/ffdb_pagepool.h
@@ -383,6 +383,15 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
 extern int
 ffdb_pagepool_sync (ffdb_pagepool_t* pgp);
 
+/**
+ * Flush all dirty pages back to the back end file, those in use included.
+ * The caller makes sure that nobody is changing a page.
+ *
+ * @param  pgp cache page pool pointer
+ */
+extern int
+ffdb_pagepool_sync_all (ffdb_pagepool_t* pgp);
+
 /**
  * Close the page poll pointer and any resource associated with this file
  * This implies all dirty pages are flushed out, 
-- 
2.43.0


From 6c6be32af1d9388e192159ad9ec5d5d48e0709e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:38 +0000
Subject: [PATCH 54/59] fix: using a closed ensemble database or simple store
 ended the process

---
 src/AllConfStoreDB.h        | 27 +++++++++++++++++++++++++++
 src/ConfDataStoreDBSimple.h | 24 +++++++++++++++++++++---
 2 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 7e8f97b..c97f120 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -244,6 +244,9 @@ namespace FILEDB
     template <typename K0 = K, typename D0 = D>
     int get (const K0& key, std::vector< D0 >& vs)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       std::string cdata;
 
@@ -303,6 +306,9 @@ namespace FILEDB
      */
     int getFromStringKey (const std::string& key, std::vector< D >& vs)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       std::string cdata;
 
@@ -397,6 +403,9 @@ namespace FILEDB
      */
     int insert (const K & key, const std::vector < D > & v)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -445,6 +454,9 @@ namespace FILEDB
      */
     int insertWithStringKey (const std::string & key, const std::vector < D > & v)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int ret;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -535,6 +547,9 @@ namespace FILEDB
      */
     int update (const K& key, const D& v, const int config, const int index)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       (void)config;
       int ret = 0;
 
@@ -733,6 +748,9 @@ namespace FILEDB
      */
     int setConfigInfo (const ConfigInfo& config)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       ffdb_config_info_t info;
 
       ::memset (&info, 0, sizeof(info));
@@ -757,6 +775,9 @@ namespace FILEDB
     int getConfigInfo (unsigned int confignum,
 		       ConfigInfo& info)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       int stat;
       ffdb_config_info_t cf;
 
@@ -779,6 +800,9 @@ namespace FILEDB
      */
     int getAllConfigInfo (std::vector<ConfigInfo>& configs)
     {
+      if (!this->db->dbh_)
+        return -1;
+
       ffdb_all_config_info_t allcfigs;
       ConfigInfo cf;
       int stat, i;
@@ -812,6 +836,9 @@ namespace FILEDB
      */
     key_iterator begin (void) const
     {
+      if (!this->db->dbh_)
+        return end ();
+
       return DBKeyIterator < K, D >::init (this->db->dbh_);
     }
 
diff --git a/src/ConfDataStoreDBSimple.h b/src/ConfDataStoreDBSimple.h
index 38a6f53..3daf8a8 100644
--- a/src/ConfDataStoreDBSimple.h
+++ b/src/ConfDataStoreDBSimple.h
@@ -306,6 +306,9 @@ namespace FILEDB
      * @return 0 on successful write, -1 on failure with proper errno set
      */
     template <typename K, typename D> int insert(const K &key, const D &data) {
+      if (!db->dbh_)
+        return -1;
+
       int ret = 0;
 
       try {
@@ -325,6 +328,9 @@ namespace FILEDB
      * @return 0 on success, otherwise the key not found
      */
     template <typename K, typename D> int get(const K &key, D &data) const {
+      if (!db->dbh_)
+        return -1;
+
       int ret = 0;
 
       try {
@@ -343,6 +349,9 @@ namespace FILEDB
      * @return true if the answer is yes
      */
     template <typename K> bool exist(const K &key) const {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
@@ -362,7 +371,8 @@ namespace FILEDB
      * by keys after this call.
      */
     template <typename K, typename D> void keys(std::vector<K> &keys) const {
-      allKeys< K, D >(db->dbh_, keys);
+      if (db->dbh_)
+        allKeys< K, D >(db->dbh_, keys);
     }
 
     /**
@@ -373,7 +383,8 @@ namespace FILEDB
      */
     template <typename K, typename D>
     void keysAndData(std::vector<K> &keys, std::vector<D> &values) const {
-      allPairs<K, D> (db->dbh_, keys, values);
+      if (db->dbh_)
+        allPairs<K, D> (db->dbh_, keys, values);
     }
 
     /**
@@ -381,7 +392,8 @@ namespace FILEDB
      */
     void flush (void)
     {
-      flushDatabase (db->dbh_);
+      if (db->dbh_)
+        flushDatabase (db->dbh_);
     }
 
     /**
@@ -403,6 +415,9 @@ namespace FILEDB
      */
     int insertUserdata (const std::string& user_data)
     {
+      if (!db->dbh_)
+        return -1;
+
       return ffdb_set_user_info (db->dbh_, 
 				 (unsigned char *)user_data.c_str(), user_data.length());
     }
@@ -415,6 +430,9 @@ namespace FILEDB
      */
     int getUserdata (std::string& user_data)
     {
+      if (!db->dbh_)
+        return -1;
+
       int ret;
       unsigned int len;
       unsigned char* data;
-- 
2.43.0


From 99945a3a97e647fae93c497877fe4fee511eafd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:50 +0000
Subject: [PATCH 55/59] fix: a flush through the classes that failed was not
 reported

---
 src/DBFunc.cpp | 3 ++-
 src/DBFunc.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DBFunc.cpp b/src/DBFunc.cpp
index c6644fd..18e0196 100644
--- a/src/DBFunc.cpp
+++ b/src/DBFunc.cpp
@@ -57,7 +57,8 @@ namespace FILEDB
 {
   void flushDatabase (FFDB_DB* dbh)
   {
-    dbh->sync (dbh, 0);
+    if (dbh->sync (dbh, 0) != 0)
+      throw FileHashDBException ("DBFunc flushDatabase", "Sync Error");
   }
 
   bool fileExists (const std::string& filename)
diff --git a/src/DBFunc.h b/src/DBFunc.h
index 03efb76..5c6fd9e 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -644,6 +644,7 @@ namespace FILEDB
 
   /**
    * flush data base to disk
+   * a FileHashDBException is thrown when not everything could be written
    */
   void flushDatabase (FFDB_DB* dbh);
 
-- 
2.43.0


From 11dc18a24926e099a2207bd0d9d9ed8801f9b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:42 +0000
Subject: [PATCH 56/59] fix: a page of the file in the place of another one was
 read as if it belonged there

---
 filehash/ffdb_page.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 5a4dd41..04248f5 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -302,6 +302,12 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
     fprintf (stderr, "Reading page %d with wrong signature 0x%x\n", pgno, PAGE_SIGN(page));
     exit (123);
   }
+
+  /* a page which belongs to another place of the file */
+  if (CURR_PGNO(page) != pgno) {
+    fprintf (stderr, "Reading page %d which is marked as page %d\n", pgno, CURR_PGNO(page));
+    exit (123);
+  }
 }
 
 /**
-- 
2.43.0


From 617387dcf5f94e524d5f0af1f8c6993aeef96d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:07 +0000
Subject: [PATCH 57/59] fix: a merge that could not store the data of a key
 ended as if it were complete

---
 src/ConfDataDBMerger.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 678f845..49a3561 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -221,7 +221,10 @@ namespace FILEDB
 	// make compiler happy
 	std::string tkey((*ite).first);
 
-	dbh_->insertBinaryData (tkey, (*ite).second);
+	if (dbh_->insertBinaryData (tkey, (*ite).second) != 0) {
+	  std::cerr << __FILE__ << " cannot insert the data of all configurations into the merged database" << std::endl;
+	  ::exit (143);
+	}
       }
     }
 
@@ -281,7 +284,10 @@ namespace FILEDB
 	  cinfo = *ite;
 	  cinfo.insert(1);
 	  cinfo.modifiedTime ((int)current_time());
-	  dbh_->setConfigInfo (cinfo);
+	  if (dbh_->setConfigInfo (cinfo) != 0) {
+	    std::cerr << __FILE__ << " cannot record configuration " << cinfo << " in the merged database" << std::endl;
+	    ::exit (143);
+	  }
 	}
       }
     }
-- 
2.43.0


From bd2df3ba9b0108ee70ad826599e1cff1978a7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:34 +0000
Subject: [PATCH 58/59] fix: a flush moved the file offset under threads that
 read pages

---
 filehash/ffdb_hash.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index b08f65f..f54da2a 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -227,9 +227,8 @@ _ffdb_hput_header (ffdb_htab_t* hashp)
   whdrp->chksum = chksum;
 
 
-  /* write the header */
-  if (lseek(hashp->fp, 0, SEEK_SET) == 0)
-    num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
+  /* write the header, leaving the file offset to threads that read pages */
+  num_copied = pwrite(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t), 0);
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "hash: could not write hash header");
     return -1;
-- 
2.43.0


From adf0ebefb195edfa9319fd150c223882c905a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:25 +0000
Subject: [PATCH 59/59] fix: a flush could write user and configuration
 information that another thread was changing

---
 filehash/ffdb_hash.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index f54da2a..b7e4dea 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1495,6 +1495,7 @@ int
 ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
 {
   ffdb_htab_t* hashp;
+  int status;
 
   hashp = (ffdb_htab_t *)db->internal;
 
@@ -1513,8 +1514,12 @@ ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
     return -1;
   }
   
-  /* No need to lock the whole process because each page is locked */
-  return ffdb_set_configs (hashp, configs);
+  /* a flush by another thread writes whole changes */
+  FFDB_LOCK (hashp->lock);
+  status = ffdb_set_configs (hashp, configs);
+  FFDB_UNLOCK (hashp->lock);
+
+  return status;
 }
 
 int
@@ -1556,6 +1561,7 @@ int
 ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
 {
   ffdb_htab_t* hashp;
+  int status;
 
   hashp = (ffdb_htab_t *)db->internal;
 
@@ -1572,7 +1578,11 @@ ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
     return -1;
   }
 
-  return ffdb_set_config_info (hashp, config);
+  FFDB_LOCK (hashp->lock);
+  status = ffdb_set_config_info (hashp, config);
+  FFDB_UNLOCK (hashp->lock);
+
+  return status;
 }
 
 
@@ -1594,6 +1604,7 @@ int
 ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
 {
   ffdb_htab_t* hashp;
+  int status;
 
   hashp = (ffdb_htab_t *)db->internal;
 
@@ -1610,7 +1621,12 @@ ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
     return -1;
   }
   
-  return ffdb_set_uinfo (hashp, data, len);
+  /* a flush by another thread writes whole changes */
+  FFDB_LOCK (hashp->lock);
+  status = ffdb_set_uinfo (hashp, data, len);
+  FFDB_UNLOCK (hashp->lock);
+
+  return status;
 }
 
 /**
-- 
2.43.0

