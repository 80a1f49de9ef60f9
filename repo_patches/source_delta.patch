From 38c3d32e0a383faac4a7316899314693452f5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 01/50] block: limits can be overridden in verification builds
 (DRPM_VERIF)

---
 src/drpm_block.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index c5607da..5620f54 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -46,6 +46,22 @@
 
 #define BLOCKS(size) (1 + ((size) - 1) / BLOCK_SIZE)
 
+/* verification builds may lower the limits (or make them variables) */
+#ifdef DRPM_VERIF
+#ifdef DRPM_VERIF_MAX_OPEN_FILES
+#undef MAX_OPEN_FILES
+#define MAX_OPEN_FILES DRPM_VERIF_MAX_OPEN_FILES
+#endif
+#ifdef DRPM_VERIF_MAX_CORE_BLOCKS
+#undef MAX_CORE_BLOCKS
+#define MAX_CORE_BLOCKS DRPM_VERIF_MAX_CORE_BLOCKS
+#endif
+#ifdef DRPM_VERIF_BLOCK_SIZE
+#undef BLOCK_SIZE
+#define BLOCK_SIZE DRPM_VERIF_BLOCK_SIZE
+#endif
+#endif
+
 /* a list of open files */
 struct open_file {
     struct open_file *prev;
-- 
2.43.0


From a0f8e4073d28b0f106da15059f48ed80828d601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 02/50] fix: sequence naming more files than there are
 overflowed the position list

---
 src/drpm_apply.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index fc6e032..b4158cb 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -115,6 +115,10 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
             i++;
         }
         even = !even;
+        if (shift > 30) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
         if ((num_buf & (1 << 3)) != 0) {
             num_buf ^= 1 << 3;
             if (shift)
@@ -146,7 +150,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         }
 
         while (number-- > 0) {
-            if (positions_len > file_count || pos > file_count) {
+            if (positions_len >= file_count || pos >= file_count) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From 6c9acfa5e1cffacf934ca7720d2f46780b9e2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 03/50] fix: sequence ID with an odd number of digits was
 accepted

---
 src/drpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index 204ab79..d8412ce 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -865,7 +865,9 @@ int drpm_check_sequence(const char *old_rpm_name, const char *sequence, int chec
         return DRPM_ERR_FORMAT;
     nevr_len = ptr - sequence;
     seq_len = (strlen(++ptr)) / 2;
-    if (seq_len < MD5_DIGEST_LENGTH) {
+    // only whole bytes, but tolerating a newline at the end
+    if (seq_len < MD5_DIGEST_LENGTH ||
+        (strlen(ptr) % 2 != 0 && ptr[strlen(ptr) - 1] != '\n')) {
         error = DRPM_ERR_FORMAT;
         goto cleanup;
     }
-- 
2.43.0


From d040d2338ae1e114d655293d853d0809e55016ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 04/50] fix: version 1 deltas were applied with the default
 compression level

---
 src/drpm_read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 6e2ffea..41df7a7 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -420,6 +420,8 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     /* reading target compression from header (used for older delta versions) */
     if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
         return error;
+    if (rpm_get_comp_level(rpmst, &delta->tgt_comp_level) != DRPM_ERR_OK)
+        delta->tgt_comp_level = DRPM_COMP_LEVEL_DEFAULT;
 
     if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
         return DRPM_ERR_IO;
-- 
2.43.0


From d621c19709cdaa5598fee070d8044c9e526d7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 05/50] fix: installed files were looked up by header position
 instead of archive position

The open file list is indexed by position in the sequence, but
fillblock_filesystem() passed the header's file index: applying without the
old package used the wrong file, or memory outside the list, whenever the
two differ.
---
 src/drpm_block.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 5620f54..22dd915 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -992,15 +992,15 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
                     strncpy((char *)buf_ptr, blks->linkto + file_off, read_len);
             } else if (file_off < blks->files[cpio->index].size) {
                 read_len = MIN(len, blks->files[cpio->index].size - file_off);
-                file = get_open_file(blks, cpio->index);
+                file = get_open_file(blks, blks->cpio_files_index);
                 if (file == NULL) {
-                    if ((error = open_new_file(blks, &prelinked, cpio->index)) != DRPM_ERR_OK)
+                    if ((error = open_new_file(blks, &prelinked, blks->cpio_files_index)) != DRPM_ERR_OK)
                         break;
                     if (prelinked) {
                         blks->cpio_files_index = -1;
                         return fillblock_prelink(blks, blk, id, copy_cnt, cpio);
                     }
-                    file = get_open_file(blks, cpio->index);
+                    file = get_open_file(blks, blks->cpio_files_index);
                 }
                 if (file->offset != (off_t)file_off && lseek(file->filedesc, file_off, SEEK_SET) != (off_t)file_off) {
                     error = DRPM_ERR_IO;
-- 
2.43.0


From bb1fd9cf267c5f3c93ad277e02fd6d20f6b94e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 06/50] fix: checking a changed ELF file with an odd section
 table freed a pointer into that table

is_prelinked() kept the section name table's header and contents in one
variable, which it freed while it still pointed into the section headers.
---
 src/drpm_apply.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index b4158cb..7bc9904 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -530,6 +530,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     int i;
     int stridx;
     unsigned char *sects = NULL;
+    const unsigned char *strhdr;
     unsigned char *strsect = NULL;
     unsigned slen;
     unsigned o;
@@ -583,14 +584,14 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    strsect = sects + stridx * ssiz;
-    if (elf32(strsect + 4, le) != 3) {
+    strhdr = sects + stridx * ssiz;
+    if (elf32(strhdr + 4, le) != 3) {
         is_prelinked = false;
         goto cleanup;
     }
 
-    soff = elf64(is64 ? strsect + 24 : strsect + 16, le, is64);
-    slen = elf64(is64 ? strsect + 32 : strsect + 20, le, is64);
+    soff = elf64(is64 ? strhdr + 24 : strhdr + 16, le, is64);
+    slen = elf64(is64 ? strhdr + 32 : strhdr + 20, le, is64);
     if (soff == (off_t)~0 || slen == (unsigned)~0 || (int)slen < 0) {
         is_prelinked = false;
         goto cleanup;
-- 
2.43.0


From fd6176e100f104b3f7a8981b02da5f238010f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 07/50] fix: a file closed to limit the number of open files
 stayed in the index of open files

With more than MAX_OPEN_FILES installed files in use the entry of the one
closed first was reused for another file, but still found under its old
index, so that contents of the wrong file were read.
---
 src/drpm_block.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 22dd915..2a386c8 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -69,6 +69,7 @@ struct open_file {
     int filedesc;
     const char *name;
     off_t offset;
+    size_t index;
 };
 
 /* a block */
@@ -627,11 +628,13 @@ int open_new_file(struct blocks *blks, bool *prelinked, size_t index)
         else
             files_head->prev = NULL;
         close(new->filedesc);
+        blks->rpm_files.from_filesytem.open_files[new->index] = NULL;
     }
 
     new->filedesc = filedesc;
     new->name = file.name;
     new->offset = 0;
+    new->index = index;
     new->prev = NULL;
     new->next = NULL;
 
-- 
2.43.0


From 37caedc837fc5d590f25cfdbb3a1ea149fbbfa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 08/50] fix: rpm-only identity deltas of compressed packages
 could not be applied

The package's archive was decompressed on reading, and written that way, so
that the result never matched. It is now passed on as it is.
---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index d8412ce..2dd6d01 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -516,6 +516,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     MD5_CTX md5;
     unsigned char md5_digest[MD5_DIGEST_LENGTH];
     bool no_full_md5;
+    bool no_diff;
     bool has_md5;
     const unsigned char empty_md5[MD5_DIGEST_LENGTH] = {0};
     struct decompstrm *addblk_strm = NULL;
@@ -550,10 +551,14 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         goto cleanup;
     rpm_only = (delta.type == DRPM_TYPE_RPMONLY);
     no_full_md5 = (memcmp(empty_md5, delta.tgt_md5, MD5_DIGEST_LENGTH) == 0);
+    no_diff = (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
+               delta.int_copies_count == 0 && delta.ext_copies_count == 0);
 
     if (from_rpm) {
-        /* reading old RPM */
-        if ((error = rpm_read(&old_rpm, old_rpm_name, RPM_ARCHIVE_READ_DECOMP, NULL, NULL, NULL)) != DRPM_ERR_OK)
+        /* reading old RPM (a no-diff DeltaRPM needs the archive as it is) */
+        if ((error = rpm_read(&old_rpm, old_rpm_name,
+                              no_diff ? RPM_ARCHIVE_READ_UNCOMP : RPM_ARCHIVE_READ_DECOMP,
+                              NULL, NULL, NULL)) != DRPM_ERR_OK)
             goto cleanup;
         if (rpm_only) {
             /* comparing signature MD5 with DeltaRPM sequence */
@@ -604,8 +609,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = rpm_replace_lead_and_signature(patched_rpm, delta.tgt_leadsig, delta.tgt_leadsig_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
-        delta.int_copies_count == 0 && delta.ext_copies_count == 0) {
+    if (no_diff) {
     /* no-diff DeltaRPM, no need for reconstruction */
         if ((error = rpm_write(patched_rpm, new_rpm_name, true, md5_digest, !no_full_md5)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From a206e876753a854e3fb0c5718d7ebcf4ac55f623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 09/50] fix: huge lengths and counts in a delta wrapped around
 when allocating

---
 src/drpm_read.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 41df7a7..fb34633 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -121,7 +121,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     if ((error = decompstrm_read_be32(stream, &src_nevr_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if ((delta->src_nevr = malloc(src_nevr_len + 1)) == NULL) {
+    if ((delta->src_nevr = malloc((size_t)src_nevr_len + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
@@ -190,9 +190,15 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
                 (error = decompstrm_read_be32(stream, &delta->offadj_elems_count)) != DRPM_ERR_OK)
                 goto cleanup;
 
+            // elements come in pairs
+            if (delta->offadj_elems_count > UINT32_MAX / 2) {
+                error = DRPM_ERR_FORMAT;
+                goto cleanup;
+            }
+
             if (delta->offadj_elems_count > 0) {
                 offadj_elems_size = delta->offadj_elems_count * 2;
-                if ((delta->offadj_elems = malloc(offadj_elems_size * 4)) == NULL) {
+                if ((delta->offadj_elems = malloc((size_t)offadj_elems_size * 4)) == NULL) {
                     error = DRPM_ERR_MEMORY;
                     goto cleanup;
                 }
@@ -240,11 +246,18 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         (error = decompstrm_read_be32(stream, &delta->ext_copies_count)) != DRPM_ERR_OK)
         goto cleanup;
 
+    // copies are pairs of numbers
+    if (delta->int_copies_count > UINT32_MAX / 2 ||
+        delta->ext_copies_count > UINT32_MAX / 2) {
+        error = DRPM_ERR_FORMAT;
+        goto cleanup;
+    }
+
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
     if (int_copies_size > 0) {
-        if ((delta->int_copies = malloc(int_copies_size * 4)) == NULL) {
+        if ((delta->int_copies = malloc((size_t)int_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
@@ -257,7 +270,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     }
 
     if (ext_copies_size > 0) {
-        if ((delta->ext_copies = malloc(ext_copies_size * 4)) == NULL) {
+        if ((delta->ext_copies = malloc((size_t)ext_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
@@ -379,7 +392,7 @@ int readdelta_rpmonly(int filedesc, struct deltarpm *delta)
 
     /* reading target NEVR */
 
-    if ((delta->head.tgt_nevr = malloc(tgt_nevr_len + 1)) == NULL)
+    if ((delta->head.tgt_nevr = malloc((size_t)tgt_nevr_len + 1)) == NULL)
         return DRPM_ERR_MEMORY;
 
     if ((bytes_read = read(filedesc, delta->head.tgt_nevr, tgt_nevr_len)) < 0)
-- 
2.43.0


From 1b29989512a020e84550620224a4662117c6df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 10/50] fix: deltas of unknown format versions were read as if
 they were known

---
 src/drpm_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index fb34633..3fa4edd 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -110,6 +110,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
 
     delta->version = version % 256 - '0';
 
+    if (delta->version < 1 || delta->version > 3) {
+        error = DRPM_ERR_FORMAT;
+        goto cleanup;
+    }
+
     if (delta->version < 3 && delta->type == DRPM_TYPE_RPMONLY) {
         // rpm-only deltas only supported since version 3
         error = DRPM_ERR_FORMAT;
-- 
2.43.0


From 83058cbb9ae73f2f721dad07cc0dbcee35f82f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 11/50] fix: a cpio entry with an empty name made the byte
 before the name buffer be written

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 00d2f10..ecd9410 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -221,7 +221,7 @@ int cpio_header_read(struct cpio_header *cpio_hdr,
         (devminor_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
         (rdevmajor_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
         (rdevminor_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
-        (namesize_ret = parse_hexnum((buffer += 8), 8)) < 0)
+        (namesize_ret = parse_hexnum((buffer += 8), 8)) < 1)
         return DRPM_ERR_FORMAT;
 
     cpio_hdr->ino = ino_ret;
-- 
2.43.0


From 5cf107c6cce59ef12c809b6a0cfeb3e6bd25d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 12/50] fix: a signature in a delta claiming more than the
 delta holds was read past its end

---
 src/drpm_rpm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index a39510a..b72f0ec 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -550,6 +550,7 @@ cleanup:
 int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, size_t leadsig_len)
 {
     const size_t skip = RPMLEAD_SIZE + sizeof(rpm_header_magic);
+    uint64_t sig_len;
 
     if (rpmst == NULL || leadsig == NULL || leadsig_len < RPM_LEADSIG_MIN_LEN)
         return DRPM_ERR_PROG;
@@ -557,6 +558,11 @@ int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, si
     if (memcmp(leadsig + RPMLEAD_SIZE, rpm_header_magic, 4) != 0)
         return DRPM_ERR_FORMAT;
 
+    /* index length, data length, index entries and data have to be there */
+    sig_len = 8 + (uint64_t)parse_be32(leadsig + skip) * 16 + parse_be32(leadsig + skip + 4);
+    if (sig_len > leadsig_len - skip)
+        return DRPM_ERR_FORMAT;
+
     memcpy(rpmst->lead, leadsig, RPMLEAD_SIZE);
 
     headerFree(rpmst->signature);
-- 
2.43.0


From f4595a6b0adb7e5cb87a2c4337c570ff075e402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 13/50] fix: memory was leaked when a delta or package could
 not be read

---
 src/drpm.c      | 4 +++-
 src/drpm_read.c | 4 ++--
 src/drpm_rpm.c  | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 2dd6d01..bb69c02 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -79,8 +79,10 @@ int drpm_read(struct drpm **delta_ret, const char *filename)
         goto cleanup;
     }
 
-    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK)
+    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK) {
+        free(*delta_ret);
         goto cleanup;
+    }
 
 cleanup:
     free_deltarpm(&delta);
diff --git a/src/drpm_read.c b/src/drpm_read.c
index 3fa4edd..fa695ea 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -435,6 +435,8 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if ((error = rpm_read(&rpmst, delta->filename, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK)
         return error;
 
+    delta->head.tgt_rpm = rpmst;
+
     /* reading target compression from header (used for older delta versions) */
     if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
         return error;
@@ -444,8 +446,6 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
         return DRPM_ERR_IO;
 
-    delta->head.tgt_rpm = rpmst;
-
     return DRPM_ERR_OK;
 }
 
diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index b72f0ec..970c8fe 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -285,8 +285,10 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     rpm_init(*rpmst);
 
     // hack: extra '\0' to prevent rpmlib from compressing (see rpmio.c)
-    if ((file = Fopen(filename, "rb\0")) == NULL)
+    if ((file = Fopen(filename, "rb\0")) == NULL) {
+        rpm_destroy(rpmst);
         return DRPM_ERR_IO;
+    }
 
     if (Fread((*rpmst)->lead, 1, RPMLEAD_SIZE, file) != RPMLEAD_SIZE ||
         memcmp((*rpmst)->lead, magic_rpm, 4) != 0 ||
@@ -342,7 +344,7 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     goto cleanup;
 
 cleanup_fail:
-    rpm_free(*rpmst);
+    rpm_destroy(rpmst);
 
 cleanup:
     free(signature);
-- 
2.43.0


From d923bdf8f812aceb3b130a441c8c99d5568910c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 14/50] fix: sizes of huge items wrapped around when presenting
 a delta

---
 src/drpm_read.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index fa695ea..834b600 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -526,17 +526,17 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
     dst->ext_copies_size = src->ext_copies_count * 2;
 
     if ((dst->filename = malloc(strlen(src->filename) + 1)) == NULL ||
-        (dst->sequence = malloc(src->sequence_len * 2 + 1)) == NULL ||
+        (dst->sequence = malloc((size_t)src->sequence_len * 2 + 1)) == NULL ||
         (dst->src_nevr = malloc(strlen(src->src_nevr) + 1)) == NULL ||
         (src->tgt_comp_param_len > 0 &&
-         (dst->tgt_comp_param = malloc(src->tgt_comp_param_len * 2 + 1)) == NULL) ||
-        (dst->tgt_leadsig = malloc(src->tgt_leadsig_len * 2 + 1)) == NULL ||
+         (dst->tgt_comp_param = malloc((size_t)src->tgt_comp_param_len * 2 + 1)) == NULL) ||
+        (dst->tgt_leadsig = malloc((size_t)src->tgt_leadsig_len * 2 + 1)) == NULL ||
         (dst->offadj_elems_size > 0 &&
-         (dst->offadj_elems = malloc(dst->offadj_elems_size * 4)) == NULL) ||
+         (dst->offadj_elems = malloc((size_t)dst->offadj_elems_size * 4)) == NULL) ||
         (dst->int_copies_size > 0 &&
-         (dst->int_copies = malloc(dst->int_copies_size * 4)) == NULL) ||
+         (dst->int_copies = malloc((size_t)dst->int_copies_size * 4)) == NULL) ||
         (dst->ext_copies_size > 0 &&
-         (dst->ext_copies = malloc(dst->ext_copies_size * 4)) == NULL)) {
+         (dst->ext_copies = malloc((size_t)dst->ext_copies_size * 4)) == NULL)) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
@@ -551,11 +551,11 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
         dump_hex(dst->tgt_comp_param, src->tgt_comp_param, src->tgt_comp_param_len);
 
     if (dst->offadj_elems_size > 0)
-        memcpy(dst->offadj_elems, src->offadj_elems, dst->offadj_elems_size * 4);
+        memcpy(dst->offadj_elems, src->offadj_elems, (size_t)dst->offadj_elems_size * 4);
     if (dst->int_copies_size > 0)
-        memcpy(dst->int_copies, src->int_copies, dst->int_copies_size * 4);
+        memcpy(dst->int_copies, src->int_copies, (size_t)dst->int_copies_size * 4);
     if (dst->ext_copies_size > 0)
-        memcpy(dst->ext_copies, src->ext_copies, dst->ext_copies_size * 4);
+        memcpy(dst->ext_copies, src->ext_copies, (size_t)dst->ext_copies_size * 4);
 
     if (src->type == DRPM_TYPE_STANDARD) {
         if ((error = rpm_get_nevr(src->head.tgt_rpm, &dst->tgt_nevr)) != DRPM_ERR_OK)
-- 
2.43.0


From 5897dcf0be6efe1b85a04b8b835437fbbbbf8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 15/50] fix: applying a delta that needs the old package
 without it leaked the output descriptor and the delta

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index bb69c02..493a766 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -577,11 +577,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         }
     } else {
         // rpm-only deltarpms do not work from filesystem
-        if (rpm_only)
-            return DRPM_ERR_ARGS;
+        if (rpm_only) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         // cannot reconstruct source RPMs from filesystem
-        if (rpm_is_sourcerpm(delta.head.tgt_rpm))
-            return DRPM_ERR_ARGS;
+        if (rpm_is_sourcerpm(delta.head.tgt_rpm)) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         /* reading old RPM header from database */
         if ((error = rpm_read_header(&old_rpm, delta.src_nevr, NULL)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From b019975a9f75514b81d4e3848f814c307fbbcf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 16/50] fix: checking leaked the descriptor of a file when
 memory ran out

---
 src/drpm_apply.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 7bc9904..9368a72 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -306,8 +306,10 @@ int check_filesize(const char *filename, unsigned short digest_algo,
         if ((filedesc = open(filename, O_RDONLY)) < 0)
             return DRPM_ERR_IO;
         if ((read_len = read(filedesc, buf, 128)) > 0) {
-            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
+            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK) {
+                close(filedesc);
                 return error;
+            }
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -349,7 +351,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     if (stats.st_size > (off_t)filesize) {
         if ((read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
             if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
-                return error;
+                goto cleanup;
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
-- 
2.43.0


From 3565bd2a1b9a8243226dbbed79a0dc081eadd415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 17/50] fix: header of an installed package was leaked and,
 when memory ran out, freed twice

---
 src/drpm_rpm.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 970c8fe..e1d4fc5 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1012,6 +1012,7 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     int error = DRPM_ERR_OK;
     rpmts trans = NULL;
     rpmdbMatchIterator iter = NULL;
+    Header db_header;
     char *name;
     char *epoch = NULL;
     char *version;
@@ -1023,14 +1024,16 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (rpmst == NULL || nevr == NULL)
         return DRPM_ERR_PROG;
 
-    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL ||
-        (str = malloc(strlen(nevr) + 1)) == NULL) {
+    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL)
+        return DRPM_ERR_MEMORY;
+
+    rpm_init(*rpmst);
+
+    if ((str = malloc(strlen(nevr) + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
 
-    rpm_init(*rpmst);
-
     strcpy(str, nevr);
     release = strrchr(str, '-');
     if (release == NULL || release == str) {
@@ -1072,14 +1075,17 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (arch)
         rpmdbSetIteratorRE(iter, RPMTAG_ARCH, RPMMIRE_STRCMP, arch);
 
-    if (((*rpmst)->header = rpmdbNextIterator(iter)) == NULL) {
+    if ((db_header = rpmdbNextIterator(iter)) == NULL) {
         error = DRPM_ERR_NOINSTALL;
         goto cleanup_fail;
     }
 
+    (*rpmst)->header = headerLink(db_header); // iterator has its own reference
+
     if ((error = rpm_export_header(*rpmst, &header, &header_size)) != DRPM_ERR_OK)
         goto cleanup_fail;
 
+    headerFree((*rpmst)->header);
     if (((*rpmst)->header = headerImport(header + sizeof(rpm_header_magic), 0, HEADERIMPORT_COPY)) == NULL) {
         error = DRPM_ERR_OTHER;
         goto cleanup_fail;
@@ -1098,6 +1104,7 @@ cleanup:
     rpmdbFreeIterator(iter);
     rpmtsFree(trans);
     free(str);
+    free(header);
 
     return error;
 }
-- 
2.43.0


From 7734143ada9aea085f5f1fa34abc07e23965f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 18/50] fix: making a delta went on without settings that could
 not be copied when memory ran out

---
 src/drpm.c         | 10 ++++++----
 src/drpm_options.c |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 493a766..e772bf4 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -330,11 +330,13 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
 
     if (user_opts == NULL)
         drpm_make_options_defaults(&opts);
-    else
-        drpm_make_options_copy(&opts, user_opts);
+    else if ((error = drpm_make_options_copy(&opts, user_opts)) != DRPM_ERR_OK)
+        goto cleanup;
 
-    if (rpm_only && opts.version < 3)
-        return DRPM_ERR_ARGS;
+    if (rpm_only && opts.version < 3) {
+        error = DRPM_ERR_ARGS;
+        goto cleanup;
+    }
 
     delta.filename = deltarpm_name;
     delta.type = rpm_only ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
diff --git a/src/drpm_options.c b/src/drpm_options.c
index 7df5af4..cf5f211 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -105,19 +105,19 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
 
     if (opts_src->seqfile != NULL) {
         if ((opts_dst->seqfile = malloc(strlen(opts_src->seqfile) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->seqfile, opts_src->seqfile);
     }
 
     if (opts_src->oldrpmprint != NULL) {
         if ((opts_dst->oldrpmprint = malloc(strlen(opts_src->oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldrpmprint, opts_src->oldrpmprint);
     }
 
     if (opts_src->oldpatchrpm != NULL) {
         if ((opts_dst->oldpatchrpm = malloc(strlen(opts_src->oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldpatchrpm, opts_src->oldpatchrpm);
     }
 
-- 
2.43.0


From d5467b10555ba2a9993a342ccc6ce0f0e09dccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 19/50] fix: memory was leaked or freed twice when making a
 delta failed

---
 src/drpm.c        |  8 ++++++--
 src/drpm_diff.c   | 10 ++++++----
 src/drpm_make.c   |  8 +++++---
 src/drpm_search.c |  6 ++++++
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index e772bf4..e508c94 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -477,11 +477,15 @@ write_files:
 
 cleanup:
 
+    // preventing double free (delta.head.tgt_rpm)
+    if (!rpm_only && delta.head.tgt_rpm != NULL)
+        solo_rpm = new_rpm = NULL;
+
     free_deltarpm(&delta);
 
+    rpm_destroy(&solo_rpm);
     rpm_destroy(&old_rpm);
-    if (rpm_only) // preventing double free (delta.head.tgt_rpm)
-        rpm_destroy(&new_rpm);
+    rpm_destroy(&new_rpm);
 
     free(old_cpio);
     free(new_cpio);
diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 8de8bf8..2be8dc6 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -86,13 +86,13 @@ int make_diff(const unsigned char *old, size_t old_len,
 
     const bool addblk = (add_block_ret != NULL && add_block_len_ret != NULL);
     size_t add_block_len;
-    struct compstrm *stream;
+    struct compstrm *stream = NULL;
 
     struct diff_copy *diff_copies = NULL;
     size_t diff_copies_len = 0;
 
     //struct sfxsrt *suffix;
-    struct hash *hashtab;
+    struct hash *hashtab = NULL;
 
     size_t old_pos = 0;
     size_t new_pos = 0;
@@ -221,7 +221,7 @@ int make_diff(const unsigned char *old, size_t old_len,
 
         if (!resize32((void **)&diff_copies, diff_copies_len, sizeof(struct diff_copy))) {
             error = DRPM_ERR_MEMORY;
-            goto cleanup;
+            goto cleanup_fail;
         }
 
         diff_copies[diff_copies_len].new_off = new_pos_prev + len_forward;
@@ -261,8 +261,10 @@ int make_diff(const unsigned char *old, size_t old_len,
     goto cleanup;
 
 cleanup_fail:
-    if (addblk)
+    if (addblk) {
         free(*add_block_ret);
+        *add_block_ret = NULL;
+    }
 
 cleanup:
     free(diff_copies);
diff --git a/src/drpm_make.c b/src/drpm_make.c
index ecd9410..9a87804 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -101,6 +101,7 @@ bool seq_append(struct files_seq *seq, unsigned val)
 {
     size_t len = 1;
     unsigned tmp = val;
+    unsigned char *data_tmp;
 
     while (tmp >= (1<<3)) {
         tmp >>= 3;
@@ -108,8 +109,9 @@ bool seq_append(struct files_seq *seq, unsigned val)
     }
 
     if (SEQ_BYTE_LEN(seq->index + len) > seq->alloc_len) {
-        if ((seq->data = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
+        if ((data_tmp = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
             return false;
+        seq->data = data_tmp;
         seq->alloc_len += SEQ_ALLOC_SIZE;
     }
 
@@ -613,7 +615,7 @@ cleanup:
     }
     free(files);
     free(name_buffer);
-    free(seq_files);
+    free(seq.data);
 
     return error;
 }
@@ -1020,7 +1022,7 @@ bool is_unpatched(const struct rpm_patches *patches, const char *name,
 int fill_nodiff_deltarpm(struct deltarpm *delta, const char *rpm_filename,
                          bool comp_not_set)
 {
-    struct rpm *solo_rpm;
+    struct rpm *solo_rpm = NULL;
     char *nevr = NULL;
     int error = DRPM_ERR_OK;
 
diff --git a/src/drpm_search.c b/src/drpm_search.c
index 008b7f8..caf861e 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -169,6 +169,8 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
     if ((*hsh = malloc(sizeof(struct hash))) == NULL)
         return DRPM_ERR_MEMORY;
 
+    (*hsh)->hash_table = NULL;
+
     ht_len = 4 * ((old_len + HSIZE - 1) >> HSIZESHIFT);
     for (i = 0; i < i_limit; i++) {
         if (ht_len < primes[i])
@@ -178,6 +180,7 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
     if ((hash_table = calloc(ht_len, sizeof(size_t))) == NULL) {
         free(*hsh);
+        *hsh = NULL;
         return DRPM_ERR_MEMORY;
     }
 
@@ -201,6 +204,9 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
 void hash_free(struct hash **hsh)
 {
+    if (*hsh == NULL)
+        return;
+
     free((*hsh)->hash_table);
     free(*hsh);
 }
-- 
2.43.0


From a6427cfa1cda3e505f3dd03d3e5f5a34fd85841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 20/50] fix: compression state was leaked whenever an operation
 failed before the end of the stream

---
 src/drpm_compstrm.c   | 79 +++++++++++++++++++++++++++++++++++--------
 src/drpm_decompstrm.c | 11 ++++--
 2 files changed, 72 insertions(+), 18 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 758dea1..39c327e 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -55,9 +55,13 @@ struct compstrm {
     } stream;
     int (*write_chunk)(struct compstrm *, size_t, const void *);
     int (*finish)(struct compstrm *);
+    void (*end)(struct compstrm *);
     bool finished;
 };
 
+static void end_bzip2(struct compstrm *);
+static void end_gzip(struct compstrm *);
+static void end_lzma(struct compstrm *);
 static int finish_bzip2(struct compstrm *);
 static int finish_gzip(struct compstrm *);
 static int finish_lzma(struct compstrm *);
@@ -71,6 +75,7 @@ static int writechunk_gzip(struct compstrm *, size_t, const void *);
 static int writechunk_lzma(struct compstrm *, size_t, const void *);
 
 #ifdef HAVE_LZLIB_DEVEL
+static void end_lzip(struct compstrm *);
 static int finish_lzip(struct compstrm *);
 static int init_lzip(struct compstrm *, int);
 static int writechunk_lzip(struct compstrm *, size_t, const void *);
@@ -92,11 +97,43 @@ static int lzip_error(struct compstrm *strm)
 #endif
 
 #ifdef WITH_ZSTD
+static void end_zstd(struct compstrm *);
 static int finish_zstd(struct compstrm *);
 static int init_zstd(struct compstrm *, int);
 static int writechunk_zstd(struct compstrm *, size_t, const void *);
 #endif
 
+/* Functions for freeing compression state of individual methods. */
+
+void end_bzip2(struct compstrm *strm)
+{
+    BZ2_bzCompressEnd(&strm->stream.bzip2);
+}
+
+void end_gzip(struct compstrm *strm)
+{
+    deflateEnd(&strm->stream.gzip);
+}
+
+void end_lzma(struct compstrm *strm)
+{
+    lzma_end(&strm->stream.lzma);
+}
+
+#ifdef HAVE_LZLIB_DEVEL
+void end_lzip(struct compstrm *strm)
+{
+    LZ_compress_close(strm->stream.lzip);
+}
+#endif
+
+#ifdef WITH_ZSTD
+void end_zstd(struct compstrm *strm)
+{
+    ZSTD_freeCCtx(strm->stream.zstd_context);
+}
+#endif
+
 /* Functions for finishing compression for individual methods. */
 
 int finish_bzip2(struct compstrm *strm)
@@ -127,8 +164,6 @@ int finish_bzip2(struct compstrm *strm)
     } while (ret != BZ_STREAM_END);
 
 cleanup:
-    BZ2_bzCompressEnd(&strm->stream.bzip2);
-
     return error;
 }
 
@@ -159,8 +194,6 @@ int finish_gzip(struct compstrm *strm)
     } while (strm->stream.gzip.avail_out == 0);
 
 cleanup:
-    deflateEnd(&strm->stream.gzip);
-
     return error;
 }
 
@@ -202,8 +235,6 @@ int finish_lzma(struct compstrm *strm)
     } while (ret != LZMA_STREAM_END);
 
 cleanup:
-    lzma_end(&strm->stream.lzma);
-
     return error;
 }
 
@@ -238,8 +269,6 @@ int finish_lzip(struct compstrm *strm)
     } while (!LZ_compress_finished(strm->stream.lzip));
 
 cleanup:
-    LZ_compress_close(strm->stream.lzip);
-
     return error;
 }
 #endif
@@ -259,20 +288,23 @@ int finish_zstd(struct compstrm *strm)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_end);
-        if (ZSTD_isError(remaining))
+        if (ZSTD_isError(remaining)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     } while(remaining != 0);
 
     free(buffOut);
-    ZSTD_freeCCtx(strm->stream.zstd_context);
     return DRPM_ERR_OK;
 }
 
@@ -284,6 +316,7 @@ int init_bzip2(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_bzip2;
     strm->finish = finish_bzip2;
+    strm->end = end_bzip2;
 
     strm->stream.bzip2.bzalloc = NULL;
     strm->stream.bzip2.bzfree = NULL;
@@ -310,6 +343,7 @@ int init_gzip(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_gzip;
     strm->finish = finish_gzip;
+    strm->end = end_gzip;
 
     strm->stream.gzip.zalloc = Z_NULL;
     strm->stream.gzip.zfree = Z_NULL;
@@ -338,6 +372,7 @@ int init_lzma(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->end = end_lzma;
     strm->stream.lzma = stream;
 
     if (level == DRPM_COMP_LEVEL_DEFAULT)
@@ -363,6 +398,7 @@ int init_xz(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->end = end_lzma;
     strm->stream.lzma = stream;
     memset(&strm->stream.lzma, 0, sizeof(lzma_stream));
 
@@ -388,6 +424,7 @@ int init_lzip(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzip;
     strm->finish = finish_lzip;
+    strm->end = end_lzip;
 
     if ((strm->stream.lzip = LZ_compress_open(65535, 16, SIZE_MAX)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -408,11 +445,14 @@ int init_zstd(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 19;
 
-    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level)))
+    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level))) {
+        ZSTD_freeCCtx(strm->stream.zstd_context);
         return DRPM_ERR_OTHER;
+    }
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
+    strm->end = end_zstd;
 
     return DRPM_ERR_OK;
 }
@@ -424,6 +464,9 @@ int compstrm_destroy(struct compstrm **strm)
     if (strm == NULL || *strm == NULL)
         return DRPM_ERR_PROG;
 
+    if ((*strm)->end != NULL)
+        (*strm)->end(*strm);
+
     free((*strm)->data);
     free(*strm);
     *strm = NULL;
@@ -454,6 +497,7 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
     case DRPM_COMP_NONE:
         (*strm)->write_chunk = writechunk;
         (*strm)->finish = NULL;
+        (*strm)->end = NULL;
         break;
     case DRPM_COMP_GZIP:
         if ((error = init_gzip(*strm, level)) != DRPM_ERR_OK)
@@ -484,7 +528,8 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
         break;
 #endif
     default:
-        return DRPM_ERR_PROG;
+        error = DRPM_ERR_PROG;
+        goto cleanup_fail;
     }
 
     return DRPM_ERR_OK;
@@ -744,13 +789,17 @@ int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_continue);
-        if (ZSTD_isError(remaining))
+        if (ZSTD_isError(remaining)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index ec3115e..e50229b 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -759,12 +759,16 @@ int readchunk_zstd(struct decompstrm *strm)
     while (input.pos < input.size) {
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
-        if (ZSTD_isError(ret))
+        if (ZSTD_isError(ret)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
@@ -772,10 +776,11 @@ int readchunk_zstd(struct decompstrm *strm)
 
     strm->comp_size += in_len;
 
+    free(buffOut);
+
     if (strm->md5 != NULL && MD5_Update(strm->md5, in_buffer, in_len) != 1)
         return DRPM_ERR_OTHER;
 
-    free(buffOut);
     return DRPM_ERR_OK;
 }
 #endif
-- 
2.43.0


From b8272e1e21d1da6d6572e6b524e801dc9645371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 21/50] fix: levels the compression method does not have hung
 or were read uninitialised

---
 src/drpm_compstrm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 39c327e..a8e91b8 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -334,6 +334,8 @@ int init_bzip2(struct compstrm *strm, int level)
     case BZ_MEM_ERROR:
         BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
+    case BZ_PARAM_ERROR:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -360,6 +362,8 @@ int init_gzip(struct compstrm *strm, int level)
     case Z_MEM_ERROR:
         deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
+    case Z_STREAM_ERROR:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -378,7 +382,8 @@ int init_lzma(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 2;
 
-    lzma_lzma_preset(&options, level);
+    if (lzma_lzma_preset(&options, level))
+        return DRPM_ERR_FORMAT;
 
     switch (lzma_alone_encoder(&strm->stream.lzma, &options)) {
     case LZMA_OK:
-- 
2.43.0


From 4f14a1ec5b7b33ebf9f0f7404a0d78ff4494c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 22/50] fix: rebuilt data was freed twice when memory ran out
 at the end of applying

---
 src/drpm_write.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 87da972..551cae6 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -378,6 +378,7 @@ int compstrm_wrapper_finish(struct compstrm_wrapper *csw, unsigned char **data,
 
     if ((data_tmp = realloc(*data, csw->uncomp_len + *data_len)) == NULL) {
         free(*data);
+        *data = NULL;
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From bc6b61b9ce3c1e917c847f11302658f35c3ac7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 23/50] fix: memory was leaked when a delta could not be
 written

---
 src/drpm_write.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 551cae6..deddb14 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -209,28 +209,34 @@ int write_deltarpm(struct deltarpm *delta)
     switch (delta->type) {
     case DRPM_TYPE_STANDARD:
         if ((error = rpm_fetch_header(delta->head.tgt_rpm, &header, &header_size)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
         if (MD5_Init(&md5) != 1 ||
             MD5_Update(&md5, header, header_size) != 1 ||
             MD5_Update(&md5, strm_data, strm_data_len) != 1 ||
-            MD5_Final(md5_digest, &md5) != 1)
-            return DRPM_ERR_OTHER;
+            MD5_Final(md5_digest, &md5) != 1) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if ((error = rpm_signature_empty(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_size(delta->head.tgt_rpm, header_size + strm_data_len)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_md5(delta->head.tgt_rpm, md5_digest)) != DRPM_ERR_OK ||
             (error = rpm_signature_reload(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_write(delta->head.tgt_rpm, delta->filename, false, NULL, false)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
-        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
         break;
 
     case DRPM_TYPE_RPMONLY:
-        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
 
         if (write(filedesc, "drpm", 4) != 4 ||
             write(filedesc, version, 4) != 4) {
@@ -266,7 +272,8 @@ cleanup:
 
     free(header);
     free(strm_data);
-    close(filedesc);
+    if (filedesc >= 0)
+        close(filedesc);
 
     return error;
 }
-- 
2.43.0


From dcd82a822417e0849035848e60e903d2af5f800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 24/50] fix: errors that only show when closing an output file
 were ignored

---
 src/drpm.c       |  3 ++-
 src/drpm_rpm.c   |  3 ++-
 src/drpm_write.c | 10 ++++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index e508c94..4b6b308 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -772,7 +772,8 @@ final_check:
 
 cleanup:
 
-    close(filedesc);
+    if (close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     for (size_t i = 0; i < file_count; i++) {
         free(files[i].name);
diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index e1d4fc5..be561c3 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -541,7 +541,8 @@ int rpm_write(struct rpm *rpmst, const char *filename, bool include_archive, uns
     }
 
 cleanup:
-    Fclose(file);
+    if (Fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
     free(signature);
     free(header);
 
diff --git a/src/drpm_write.c b/src/drpm_write.c
index deddb14..e125067 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -272,8 +272,8 @@ cleanup:
 
     free(header);
     free(strm_data);
-    if (filedesc >= 0)
-        close(filedesc);
+    if (filedesc >= 0 && close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
@@ -294,11 +294,13 @@ int write_seqfile(struct deltarpm *delta, const char *filename)
 
     dump_hex(sequence, delta->sequence, delta->sequence_len);
 
-    fprintf(file, "%s-%s\n", delta->src_nevr, sequence);
+    if (fprintf(file, "%s-%s\n", delta->src_nevr, sequence) < 0)
+        error = DRPM_ERR_IO;
 
 cleanup:
     free(sequence);
-    fclose(file);
+    if (fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From d488baba5a2a82cd7ae59f0e0270d0b4edc1fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 25/50] fix: block data was used after being freed when
 temporary storage or memory ran out

---
 src/drpm_block.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 2a386c8..1fe8e70 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -176,6 +176,8 @@ int blocks_create(struct blocks **blks_ret,
     if (blks_ret == NULL)
         return DRPM_ERR_PROG;
 
+    *blks_ret = NULL;
+
     if (block_count >= UINT32_MAX)
         return DRPM_ERR_OVERFLOW;
 
@@ -240,6 +242,11 @@ int blocks_create(struct blocks **blks_ret,
 
 cleanup:
     free(*blks_ret);
+    *blks_ret = NULL;
+    if (blks.from_rpm)
+        free(blks.rpm_files.from_rpm.old_header);
+    else
+        free(blks.rpm_files.from_filesytem.open_files);
     free(blks.blocks_table);
     free(blks.blocks_max);
     free(blks.cpio_buffer);
@@ -490,11 +497,6 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
     if (new == NULL) {
         if ((new = malloc(sizeof(struct block))) == NULL)
             return DRPM_ERR_MEMORY;
-        new->type = BLK_PAGE;
-        new->data.offset = blks->page_blocks_count;
-        new->next = blks->page_blocks;
-        blks->page_blocks = new;
-        blks->page_blocks_count++;
         if (blks->page_filedesc < 0) {
             if ((blks->page_filedesc = mkstemp(template)) < 0) {
                 free(new);
@@ -502,14 +504,17 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
             }
             unlink(template);
         }
+        new->type = BLK_PAGE;
+        new->data.offset = blks->page_blocks_count;
+        new->next = blks->page_blocks;
+        blks->page_blocks = new;
+        blks->page_blocks_count++;
     }
 
     new->id = blk->id;
 
-    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE) {
-        free(new);
+    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE)
         return DRPM_ERR_IO;
-    }
 
     blks->blocks_table[new->id] = new;
 
-- 
2.43.0


From 55cf8753ac0ac2bc33edc509704f507b883aa82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 26/50] fix: the length of a name in a cpio header wrapped
 around to 0

---
 src/drpm_make.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 9a87804..249c307 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -223,7 +223,8 @@ int cpio_header_read(struct cpio_header *cpio_hdr,
         (devminor_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
         (rdevmajor_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
         (rdevminor_ret = parse_hexnum((buffer += 8), 8)) < 0 ||
-        (namesize_ret = parse_hexnum((buffer += 8), 8)) < 1)
+        (namesize_ret = parse_hexnum((buffer += 8), 8)) < 1 ||
+        namesize_ret > UINT16_MAX)
         return DRPM_ERR_FORMAT;
 
     cpio_hdr->ino = ino_ret;
-- 
2.43.0


From 49fe2ac67a49af3f2be2329d00791d564034dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 27/50] fix: uncompressed add blocks of fewer than 8 bytes
 could not be applied

---
 src/drpm_decompstrm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index e50229b..837bbec 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -267,11 +267,12 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
     uint64_t magic;
     int error = DRPM_ERR_OK;
 
-    if (strm == NULL || (filedesc < 0 && (buffer == NULL || buffer_len < 8)))
+    if (strm == NULL || (filedesc < 0 && buffer == NULL))
         return DRPM_ERR_PROG;
 
     if (filedesc < 0) {
-        magic = parse_be64(buffer);
+        /* too short for any compression format */
+        magic = (buffer_len < 8) ? 0 : parse_be64(buffer);
     } else {
         if ((error = read_be64(filedesc, &magic)) != DRPM_ERR_OK)
             return error;
-- 
2.43.0


From dd5ea6a1b93a7c557c0d2da972271357009f2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 28/50] fix: copying an options object onto itself lost its
 strings

---
 src/drpm_options.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index cf5f211..a9a59c9 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -86,6 +86,9 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
     if (opts_dst == NULL || opts_src == NULL)
         return DRPM_ERR_ARGS;
 
+    if (opts_dst == opts_src)
+        return DRPM_ERR_OK;
+
     opts_dst->rpm_only = opts_src->rpm_only;
     opts_dst->version = opts_src->version;
     opts_dst->comp_from_rpm = opts_src->comp_from_rpm;
-- 
2.43.0


From 51da79a0fa05e4774c9e5fc0a37e60dcd5cee475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 29/50] fix: copies before the beginning of the source were
 accepted when the source's length was near 2^64

---
 src/drpm_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 834b600..2f3a12d 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -360,6 +360,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     /* checking external copies against external data length */
     off = 0;
     for (uint32_t i = 0; i < ext_copies_size; i += 2) {
+        if ((delta->ext_copies[i] & INT32_MIN) != 0 && off < TWOS_COMPLEMENT(delta->ext_copies[i])) {
+            // before the beginning of the external data
+            error = DRPM_ERR_FORMAT;
+            goto cleanup;
+        }
         off += (int32_t)delta->ext_copies[i];
         if (off > delta->ext_data_len) {
             error = DRPM_ERR_FORMAT;
-- 
2.43.0


From e6b32e90be2bd8186ef7af536e77236f68f6acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 30/50] fix: destroying options that were never initialized
 crashed

---
 src/drpm_options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index a9a59c9..301cb62 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -44,7 +44,7 @@ int drpm_make_options_init(struct drpm_make_options **opts)
 
 int drpm_make_options_destroy(struct drpm_make_options **opts)
 {
-    if (opts == NULL)
+    if (opts == NULL || *opts == NULL)
         return DRPM_ERR_ARGS;
 
     free((*opts)->seqfile);
-- 
2.43.0


From 098adedf9a4ebdad2a1d3caef8c2d9c7d88f511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 31/50] fix: the compression level was ignored for lzip

---
 src/drpm_compstrm.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index a8e91b8..33bdd24 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -425,13 +425,27 @@ int init_xz(struct compstrm *strm, int level)
 #ifdef HAVE_LZLIB_DEVEL
 int init_lzip(struct compstrm *strm, int level)
 {
+    static const struct {
+        int dictionary_size;
+        int match_len_limit;
+    } levels[] = {
+        {65535, 16},
+        {1 << 20, 5}, {3 << 19, 6}, {1 << 21, 8}, {3 << 20, 12}, {1 << 22, 20},
+        {1 << 23, 36}, {1 << 24, 68}, {3 << 23, 132}, {1 << 25, 273}
+    };
     int error;
 
     strm->write_chunk = writechunk_lzip;
     strm->finish = finish_lzip;
     strm->end = end_lzip;
 
-    if ((strm->stream.lzip = LZ_compress_open(65535, 16, SIZE_MAX)) == NULL)
+    // dictionary sizes and match length limits of lzip's levels
+    if (level == DRPM_COMP_LEVEL_DEFAULT)
+        level = 0;
+    else if (level > 9)
+        return DRPM_ERR_FORMAT;
+
+    if ((strm->stream.lzip = LZ_compress_open(levels[level].dictionary_size, levels[level].match_len_limit, SIZE_MAX)) == NULL)
         return DRPM_ERR_MEMORY;
 
     if ((error = lzip_error(strm)) != DRPM_ERR_OK)
-- 
2.43.0


From de9939cf2d9b2d2468be55aa9fcf4b29122153a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:19 +0000
Subject: [PATCH 32/50] fix: unreadable patch files crashed making of deltas

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 249c307..006d267 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -883,7 +883,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
         return DRPM_ERR_OK;
     }
 
-    if ((*patches = malloc(sizeof(struct rpm_patches))) == NULL)
+    if ((*patches = calloc(1, sizeof(struct rpm_patches))) == NULL)
         return DRPM_ERR_MEMORY;
 
     rpmprint = &(*patches)->rpmprint;
-- 
2.43.0


From 9e0e9bcffe91aa402d4a3e6ef2eeb657e33c5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 33/50] fix: applying to installed files wiped the output
 before refusing impossible arguments

---
 src/drpm.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 4b6b308..07a0163 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -520,7 +520,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     struct cpio_file *cpio_files = NULL;
     size_t cpio_files_len = 0;
     struct blocks *blks = NULL;
-    int filedesc;
+    int filedesc = -1;
     MD5_CTX md5;
     unsigned char md5_digest[MD5_DIGEST_LENGTH];
     bool no_full_md5;
@@ -551,13 +551,23 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if (deltarpm_name == NULL || new_rpm_name == NULL)
         return DRPM_ERR_ARGS;
 
-    if ((filedesc = creat(new_rpm_name, CREAT_MODE)) < 0)
-        return DRPM_ERR_IO;
-
     /* reading DeltaRPM */
     if ((error = read_deltarpm(&delta, deltarpm_name)) != DRPM_ERR_OK)
         goto cleanup;
     rpm_only = (delta.type == DRPM_TYPE_RPMONLY);
+
+    // rpm-only deltarpms do not work from filesystem,
+    // and source RPMs cannot be reconstructed from it
+    if (!from_rpm && (rpm_only || rpm_is_sourcerpm(delta.head.tgt_rpm))) {
+        error = DRPM_ERR_ARGS;
+        goto cleanup;
+    }
+
+    if ((filedesc = creat(new_rpm_name, CREAT_MODE)) < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup;
+    }
+
     no_full_md5 = (memcmp(empty_md5, delta.tgt_md5, MD5_DIGEST_LENGTH) == 0);
     no_diff = (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
                delta.int_copies_count == 0 && delta.ext_copies_count == 0);
@@ -582,16 +592,6 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
             }
         }
     } else {
-        // rpm-only deltarpms do not work from filesystem
-        if (rpm_only) {
-            error = DRPM_ERR_ARGS;
-            goto cleanup;
-        }
-        // cannot reconstruct source RPMs from filesystem
-        if (rpm_is_sourcerpm(delta.head.tgt_rpm)) {
-            error = DRPM_ERR_ARGS;
-            goto cleanup;
-        }
         /* reading old RPM header from database */
         if ((error = rpm_read_header(&old_rpm, delta.src_nevr, NULL)) != DRPM_ERR_OK)
             goto cleanup;
@@ -772,7 +772,7 @@ final_check:
 
 cleanup:
 
-    if (close(filedesc) != 0 && error == DRPM_ERR_OK)
+    if (filedesc >= 0 && close(filedesc) != 0 && error == DRPM_ERR_OK)
         error = DRPM_ERR_IO;
 
     for (size_t i = 0; i < file_count; i++) {
-- 
2.43.0


From 747c4fb10fa5038907ac03c072e0e7a8353502f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 34/50] fix: every use of the package database read the rpm
 configuration again and leaked it

---
 src/drpm_rpm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index be561c3..eaec595 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1010,6 +1010,7 @@ cleanup:
  * The RPM is identified by its <nevr> string. */
 int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
 {
+    static bool config_read = false;
     int error = DRPM_ERR_OK;
     rpmts trans = NULL;
     rpmdbMatchIterator iter = NULL;
@@ -1065,7 +1066,9 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     }
     name = str;
 
-    rpmReadConfigFiles(NULL, NULL);
+    // reading it again would stack all macros once more
+    if (!config_read)
+        config_read = (rpmReadConfigFiles(NULL, NULL) == 0);
 
     trans = rpmtsCreate();
 
-- 
2.43.0


From ccb41cfd787fab316a593f698d1b1300e03f4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 35/50] fix: a package whose payload is corrupt or ends too
 early was taken for a complete one

---
 src/drpm_decompstrm.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 837bbec..42dfb54 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -64,6 +64,7 @@ struct decompstrm {
 #endif
     } stream;
     bool lzip_eof;
+    bool ended; // end of compressed data was reached
     int (*read_chunk)(struct decompstrm *);
     void (*finish)(struct decompstrm *);
     size_t comp_size;
@@ -287,6 +288,7 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
     (*strm)->data_len = 0;
     (*strm)->data_pos = 0;
     (*strm)->filedesc = filedesc;
+    (*strm)->ended = false;
     (*strm)->comp_size = 0;
     (*strm)->md5 = md5;
     (*strm)->buffer = buffer;
@@ -426,6 +428,8 @@ int decompstrm_read_until_eof(struct decompstrm *strm,
         case DRPM_ERR_OK:
             break;
         case DRPM_ERR_FORMAT: // nothing more to read
+            if (!strm->ended)
+                return error;
             eof = true;
             break;
         default:
@@ -467,8 +471,10 @@ int readchunk(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->ended = true;
         return DRPM_ERR_FORMAT;
+    }
 
     if ((data_tmp = realloc(strm->data, strm->data_len + in_len)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -513,6 +519,9 @@ int readchunk_bzip2(struct decompstrm *strm)
         strm->stream.bzip2.next_out = out_buffer;
         strm->stream.bzip2.avail_out = CHUNK_SIZE;
         switch (BZ2_bzDecompress(&strm->stream.bzip2)) {
+        case BZ_STREAM_END:
+            strm->ended = true;
+            break;
         case BZ_DATA_ERROR:
         case BZ_DATA_ERROR_MAGIC:
             return DRPM_ERR_FORMAT;
@@ -566,6 +575,9 @@ int readchunk_gzip(struct decompstrm *strm)
         strm->stream.gzip.next_out = out_buffer;
         strm->stream.gzip.avail_out = CHUNK_SIZE;
         switch (inflate(&strm->stream.gzip, Z_SYNC_FLUSH)) {
+        case Z_STREAM_END:
+            strm->ended = true;
+            break;
         case Z_DATA_ERROR:
         case Z_NEED_DICT:
         case Z_STREAM_ERROR:
@@ -620,8 +632,10 @@ int readchunk_lzma(struct decompstrm *strm)
         strm->stream.lzma.next_out = out_buffer;
         strm->stream.lzma.avail_out = CHUNK_SIZE;
         switch (lzma_code(&strm->stream.lzma, LZMA_RUN)) {
-        case LZMA_OK:
         case LZMA_STREAM_END:
+            strm->ended = true;
+            break;
+        case LZMA_OK:
             break;
         case LZMA_FORMAT_ERROR:
         case LZMA_OPTIONS_ERROR:
@@ -695,6 +709,7 @@ int readchunk_lzip(struct decompstrm *strm)
             memcpy(strm->data + strm->data_len, out_buffer, out_len);
             strm->data_len += out_len;
         } while (!LZ_decompress_finished(strm->stream.lzip));
+        strm->ended = true;
     } else {
         while (written < in_len) {
             if (LZ_decompress_write_size(strm->stream.lzip) > 0) {
@@ -764,6 +779,7 @@ int readchunk_zstd(struct decompstrm *strm)
             free(buffOut);
             return DRPM_ERR_OTHER;
         }
+        strm->ended = (ret == 0);
         if (output.pos == 0)
             continue;
         if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
-- 
2.43.0


From de1eb8c448cb1d9608d56a5d31fe6375600929de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 36/50] fix: the old archive was freed twice when memory ran
 out while making an rpm-only delta

---
 src/drpm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 07a0163..38ca74d 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -421,12 +421,15 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             (error = rpm_fetch_archive(new_rpm, &new_cpio, &new_cpio_len)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL ||
-            (new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
         old_cpio = old_cpio_tmp;
+        if ((new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         new_cpio = new_cpio_tmp;
 
         memmove(old_cpio + old_header_len, old_cpio, old_cpio_len);
-- 
2.43.0


From 48d43f446f22f20e59babbbcd509eb13137ce099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 37/50] fix: deltas of packages with an uncompressed payload
 could not be read

rpmbuild names no payload compressor for uncompressed payloads. Standard
deltas of such packages were made without complaint, but reading or
applying them failed with a format error.
---
 src/drpm_rpm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index eaec595..8a28da8 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -602,8 +602,11 @@ int rpm_get_comp(struct rpm *rpmst, unsigned short *comp)
     if (rpmst == NULL || comp == NULL)
         return DRPM_ERR_PROG;
 
-    if ((payload_comp = headerGetString(rpmst->header, RPMTAG_PAYLOADCOMPRESSOR)) == NULL)
-        return DRPM_ERR_FORMAT;
+    /* uncompressed payloads are not named in the header */
+    if ((payload_comp = headerGetString(rpmst->header, RPMTAG_PAYLOADCOMPRESSOR)) == NULL) {
+        *comp = DRPM_COMP_NONE;
+        return DRPM_ERR_OK;
+    }
 
     if (strcmp(payload_comp, "gzip") == 0) {
         *comp = DRPM_COMP_GZIP;
-- 
2.43.0


From fedd2dd92c8225d62039f4449eb334195df625c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 38/50] fix: use the file lists of packages that give whole
 paths

Headers of old packages list their files' whole paths instead of
directories and base names. Such packages were taken to have no files,
so standard deltas used nothing of the old package, had another sequence
ID than those of the reference tool, and deltas made by the reference
tool were refused.
---
 src/drpm_rpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 8a28da8..ab72ab4 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -773,7 +773,9 @@ int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
     filelinktos = rpmtdNew();
     filecolors = rpmtdNew();
 
-    if (headerGet(rpmst->header, RPMTAG_FILENAMES, filenames, HEADERGET_EXT) != 1 ||
+    /* old packages list whole paths instead of directories and base names */
+    if ((headerGet(rpmst->header, RPMTAG_FILENAMES, filenames, HEADERGET_EXT) != 1 &&
+         headerGet(rpmst->header, RPMTAG_OLDFILENAMES, filenames, HEADERGET_MINMEM) != 1) ||
         headerGet(rpmst->header, RPMTAG_FILEFLAGS, fileflags, HEADERGET_MINMEM) != 1 ||
         headerGet(rpmst->header, RPMTAG_FILEMD5S, filemd5s, HEADERGET_MINMEM) != 1 ||
         headerGet(rpmst->header, RPMTAG_FILERDEVS, filerdevs, HEADERGET_MINMEM) != 1 ||
-- 
2.43.0


From 6e96344ef0dbb6e578b814b59004d3b9bc3c27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 39/50] fix: instructions after a copy of 2 GiB or more pointed
 at the wrong place

---
 src/drpm_diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 2be8dc6..5de69c5 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -331,7 +331,7 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
                 if (old_len >= (uint32_t)INT32_MIN) {
                     ext_copies[ext_copies_count++ * 2 + 1] = INT32_MAX;
                     old_len -= INT32_MAX;
-                    old_off = offset += INT32_MAX;
+                    offset = old_off += INT32_MAX;
                     continue;
                 }
 
-- 
2.43.0


From ed71f98cc92fa39195e0159b5edea1cf1d09659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:53 +0000
Subject: [PATCH 40/50] fix: a file that cannot be read was reported as changed
 by a full check

---
 src/drpm_apply.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 9368a72..b5559d6 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -372,6 +372,11 @@ int check_full(const char *filename, unsigned short digest_algo,
         filesize -= read_len;
     }
 
+    if (filesize > 0 && read_len < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup;
+    }
+
     if ((error = checksum_final(&chsm, chsm_digest)) != DRPM_ERR_OK)
         goto cleanup;
 
-- 
2.43.0


From 6693257fcb81a0ff198abe0f2f9b5dffc86fb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 41/50] fix: the target of a symbolic link was read past its
 end when a block also holds a prelinked file

---
 src/drpm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 1fe8e70..50617cb 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1135,7 +1135,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
             } else if (S_ISLNK(blks->files[cpio->index].mode)) {
                 file_off = off - (cpio->offset + cpio->header_len);
                 linkto = blks->files[cpio->index].linkto;
-                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto));
+                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto) - file_off);
                 if (read_len) {
                     memcpy(buf_ptr, linkto + file_off, read_len);
                     buf_ptr += read_len;
-- 
2.43.0


From c2200c56bbf737951d0232257a5bfe945b033771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 42/50] fix: a descriptor was closed twice when prelink could
 not be run for an installed file

---
 src/drpm_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 50617cb..ea1c223 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1168,6 +1168,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
                                 goto cleanup;
                             if (prelinked) {
                                 close(filedesc);
+                                filedesc = -1;
                                 if ((error = prelink_open(blks->files[cpio->index].name, &filedesc)) != DRPM_ERR_OK)
                                     goto cleanup;
                             }
-- 
2.43.0


From 46a83ee30faea95a45f70f68aab47f973d834f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 43/50] fix: prelink's temporary file was left behind when it
 could not be run or its result not be opened

---
 src/drpm_apply.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index b5559d6..459b42a 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -652,6 +652,7 @@ int prelink_open(const char *filename, int *filedesc)
 
     pid = fork();
     if (pid == (pid_t)-1) {
+        unlink(template);
         return DRPM_ERR_OTHER;
     }
     if (pid == 0) {
@@ -661,10 +662,10 @@ int prelink_open(const char *filename, int *filedesc)
 
     while (waitpid(pid, &status, 0) == (pid_t)-1);
 
-    if ((fd = open(template, O_RDONLY)) < 0)
-        return DRPM_ERR_IO;
-
+    fd = open(template, O_RDONLY);
     unlink(template);
+    if (fd < 0)
+        return DRPM_ERR_IO;
 
     *filedesc = fd;
 
-- 
2.43.0


From c6fa081283ce91c589189cbde7a9ff84405b6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 44/50] fix: using a prelinked file never ended in an
 application that ignores SIGCHLD

---
 src/drpm_apply.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 459b42a..dec00a9 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -26,6 +26,7 @@
 #include <stdint.h>
 #include <stdbool.h>
 #include <string.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/stat.h>
@@ -660,7 +661,7 @@ int prelink_open(const char *filename, int *filedesc)
         _exit(1);
     }
 
-    while (waitpid(pid, &status, 0) == (pid_t)-1);
+    while (waitpid(pid, &status, 0) == (pid_t)-1 && errno == EINTR);
 
     fd = open(template, O_RDONLY);
     unlink(template);
-- 
2.43.0


From 1da93193cc894325bbd97ec0e4a952868ea81aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 45/50] fix: lists of patched files (rpml) could not be read
 and corrupted memory

---
 src/drpm_make.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 006d267..de128d5 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -661,12 +661,14 @@ int rpml_get_string(int filedesc, char **ret)
             return DRPM_ERR_MEMORY;
         if (read(filedesc, *ret, len) != len) {
             free(*ret);
+            *ret = NULL;
             return DRPM_ERR_FORMAT;
         }
         (*ret)[len] = '\0';
+        return DRPM_ERR_OK;
     }
 
-    return DRPM_ERR_OK;
+    return rpml_skip(filedesc, len);
 }
 
 int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_ret)
@@ -702,7 +704,10 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
     if (new_filename_len > filename_len) {
         if ((filename = realloc(filename, new_filename_len)) == NULL)
             return DRPM_ERR_MEMORY;
+        memset(filename + filename_len, 0, new_filename_len - filename_len);
         filename_len = new_filename_len;
+        *filename_ret = filename;
+        *filename_len_ret = filename_len;
     }
 
     if (read(filedesc, filename + off, len) != len)
@@ -710,9 +715,6 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     filename[off + len] = '\0';
 
-    *filename_ret = filename;
-    *filename_len_ret = filename_len;
-
     return DRPM_ERR_OK;
 }
 
@@ -727,8 +729,9 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 {
     int error = DRPM_ERR_OK;
     char *filename = NULL;
-    uint32_t filename_len;
+    uint32_t filename_len = 0;
     const char *fname;
+    struct patch_file *file;
     uint32_t magic;
     char *name = NULL;
     char *evr = NULL;
@@ -751,7 +754,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
         goto cleanup;
 
     if ((patch->nevr = malloc(strlen(name) + strlen(evr) + 2)) == NULL) {
-        error = DRPM_ERR_FORMAT;
+        error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
 
@@ -779,6 +782,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                 goto cleanup;
             if ((patch->files[patch->file_count].name = malloc(strlen(filename) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
+                goto cleanup;
             }
             strcpy(patch->files[patch->file_count].name, filename);
             patch->files[patch->file_count].mode = S_IFREG;
@@ -802,18 +806,22 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 
         fname = (strncmp(filename, "./", 2) == 0) ? filename + 2 : filename;
 
-        if ((patch->files[patch->file_count].name = malloc(strlen(fname) + 1)) == NULL) {
+        file = patch->files + patch->file_count;
+
+        if ((file->name = malloc(strlen(fname) + 1)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
+        strcpy(file->name, fname);
+        patch->file_count++;
 
-        patch->files[patch->file_count].flags = RPMFILE_NONE;
-        memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
+        file->flags = RPMFILE_NONE;
+        memset(file->md5, 0, MD5_DIGEST_LENGTH);
 
-        if ((error = rpml_get_uint16(filedesc, &patch->files[patch->file_count].mode)) != DRPM_ERR_OK)
+        if ((error = rpml_get_uint16(filedesc, &file->mode)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if (patch->files[patch->file_count].mode != 0) {
+        if (file->mode != 0) {
             if (read(filedesc, &num, 1) != 1) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup;
@@ -834,23 +842,21 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                     goto cleanup;
             }
 
-            if ((S_ISCHR(patch->files[patch->file_count].mode) || S_ISBLK(patch->files[patch->file_count].mode)) &&
+            if ((S_ISCHR(file->mode) || S_ISBLK(file->mode)) &&
                 (error = rpml_get_uint32(filedesc, NULL)) != DRPM_ERR_OK) // rdev
                 goto cleanup;
 
-            if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
+            if (S_ISREG(file->mode) || S_ISLNK(file->mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
-                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes &&
-                    parse_be32(buf) > 0 &&
-                    read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH) {
+                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
+                    (parse_be32(buf) > 0 &&
+                     read(filedesc, file->md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
             }
         }
-
-        patch->file_count++;
     }
 
 cleanup:
-- 
2.43.0


From 03ce111e4c91ee19a08595ce4c85cec93e04897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 46/50] fix: naming a patch package corrupted and leaked memory

---
 src/drpm_make.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index de128d5..e18a83c 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -876,8 +876,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     struct patch_info *patchrpm;
     uint32_t magic;
     struct rpm *rpmst = NULL;
-    struct file_info *files;
-    size_t file_count;
+    struct file_info *files = NULL;
+    size_t file_count = 0;
     char *fname;
 
     if (patches == NULL)
@@ -919,7 +919,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             (error = rpm_get_nevr(rpmst, &rpmprint->nevr)) != DRPM_ERR_OK ||
             (error = rpm_get_file_info(rpmst, &files, &file_count, NULL)) != DRPM_ERR_OK)
             goto cleanup_fail;
-        if ((rpmprint->files = malloc(file_count)) == NULL) {
+        if (file_count > 0 && (rpmprint->files = calloc(file_count, sizeof(struct patch_file))) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup_fail;
         }
@@ -935,10 +935,6 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             strcpy(rpmprint->files[i].name, fname);
             rpmprint->files[i].mode = files[i].mode;
             rpmprint->files[i].flags = files[i].flags;
-            if (!parse_md5(rpmprint->files[i].md5, files[i].md5)) {
-                error = DRPM_ERR_FORMAT;
-                goto cleanup_fail;
-            }
         }
         break;
     case MAGIC_RPML:
@@ -956,7 +952,15 @@ cleanup_fail:
     patches_destroy(patches);
 
 cleanup:
-    close(filedesc);
+    for (size_t i = 0; i < file_count; i++) {
+        free(files[i].name);
+        free(files[i].md5);
+        free(files[i].linkto);
+    }
+    free(files);
+    rpm_destroy(&rpmst);
+    if (!(filedesc < 0))
+        close(filedesc);
 
     return error;
 }
-- 
2.43.0


From a3fbdd86343a812534178e23278299553d9247b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 47/50] fix: the rpm-print and the patch package were taken for
 each other

---
 src/drpm_make.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index e18a83c..7e5583e 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -895,17 +895,17 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     rpmprint = &(*patches)->rpmprint;
     patchrpm = &(*patches)->patchrpm;
 
-    if ((filedesc = open(oldpatchrpm, O_RDONLY)) < 0) {
+    if ((filedesc = open(oldrpmprint, O_RDONLY)) < 0) {
         error = DRPM_ERR_IO;
         goto cleanup_fail;
     }
 
-    if ((error = read_rpmlist(filedesc, patchrpm, false)) != DRPM_ERR_OK)
+    if ((error = read_rpmlist(filedesc, rpmprint, false)) != DRPM_ERR_OK)
         goto cleanup_fail;
 
     close(filedesc);
 
-    if ((filedesc = open(oldrpmprint, O_RDONLY)) < 0) {
+    if ((filedesc = open(oldpatchrpm, O_RDONLY)) < 0) {
         error = DRPM_ERR_IO;
         goto cleanup_fail;
     }
@@ -915,30 +915,30 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
 
     switch (magic) {
     case MAGIC_RPM:
-        if ((error = rpm_read(&rpmst, oldrpmprint, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK ||
-            (error = rpm_get_nevr(rpmst, &rpmprint->nevr)) != DRPM_ERR_OK ||
+        if ((error = rpm_read(&rpmst, oldpatchrpm, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK ||
+            (error = rpm_get_nevr(rpmst, &patchrpm->nevr)) != DRPM_ERR_OK ||
             (error = rpm_get_file_info(rpmst, &files, &file_count, NULL)) != DRPM_ERR_OK)
             goto cleanup_fail;
-        if (file_count > 0 && (rpmprint->files = calloc(file_count, sizeof(struct patch_file))) == NULL) {
+        if (file_count > 0 && (patchrpm->files = calloc(file_count, sizeof(struct patch_file))) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup_fail;
         }
-        rpmprint->file_count = file_count;
+        patchrpm->file_count = file_count;
         for (size_t i = 0; i < file_count; i++) {
             fname = files[i].name;
             if (fname[0] == '/')
                 fname++;
-            if ((rpmprint->files[i].name = malloc(strlen(fname) + 1)) == NULL) {
+            if ((patchrpm->files[i].name = malloc(strlen(fname) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
                 goto cleanup_fail;
             }
-            strcpy(rpmprint->files[i].name, fname);
-            rpmprint->files[i].mode = files[i].mode;
-            rpmprint->files[i].flags = files[i].flags;
+            strcpy(patchrpm->files[i].name, fname);
+            patchrpm->files[i].mode = files[i].mode;
+            patchrpm->files[i].flags = files[i].flags;
         }
         break;
     case MAGIC_RPML:
-        if ((error = read_rpmlist(filedesc, rpmprint, true)) != DRPM_ERR_OK)
+        if ((error = read_rpmlist(filedesc, patchrpm, true)) != DRPM_ERR_OK)
             goto cleanup_fail;
         break;
     default:
@@ -1006,22 +1006,22 @@ bool is_unpatched(const struct rpm_patches *patches, const char *name,
     size_t i;
     char patch_md5[MD5_DIGEST_LENGTH * 2 + 1];
 
-    for (i = 0; i < patches->rpmprint.file_count; i++)
-        if (strcmp(name, patches->rpmprint.files[i].name) == 0)
+    for (i = 0; i < patches->patchrpm.file_count; i++)
+        if (strcmp(name, patches->patchrpm.files[i].name) == 0)
             break;
 
-    if (i == patches->rpmprint.file_count ||
-        !(patches->rpmprint.files[i].flags & RPMFILE_UNPATCHED))
+    if (i == patches->patchrpm.file_count ||
+        !(patches->patchrpm.files[i].flags & RPMFILE_UNPATCHED))
         return false;
 
-    for (i = 0; i < patches->patchrpm.file_count; i++)
-        if (strcmp(name, patches->patchrpm.files[i].name) == 0)
+    for (i = 0; i < patches->rpmprint.file_count; i++)
+        if (strcmp(name, patches->rpmprint.files[i].name) == 0)
             break;
 
-    if (i == patches->patchrpm.file_count) // shouldn't happen
+    if (i == patches->rpmprint.file_count) // shouldn't happen
         return true;
 
-    dump_hex(patch_md5, patches->patchrpm.files[i].md5, MD5_DIGEST_LENGTH);
+    dump_hex(patch_md5, patches->rpmprint.files[i].md5, MD5_DIGEST_LENGTH);
 
     return (strcmp(rpm_md5, patch_md5) != 0);
 }
-- 
2.43.0


From 2b90f882da226b7ab0cf0f7b30b4230e123fd8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 48/50] fix: do not leave an unset print name behind when
 adding patches runs out of memory

---
 src/drpm_options.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 301cb62..9675643 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -262,6 +262,8 @@ int drpm_make_options_add_patches(struct drpm_make_options *opts, const char *ol
     if (opts->oldrpmprint == NULL || strlen(opts->oldrpmprint) < strlen(oldrpmprint)) {
         if ((tmp = realloc(opts->oldrpmprint, strlen(oldrpmprint) + 1)) == NULL)
             return DRPM_ERR_MEMORY;
+        if (opts->oldrpmprint == NULL)
+            tmp[0] = '\0';
         opts->oldrpmprint = tmp;
     }
     if (opts->oldpatchrpm == NULL || strlen(opts->oldpatchrpm) < strlen(oldpatchrpm)) {
-- 
2.43.0


From 788d07411c47d5c7e2634fcd5f58bf2634aedb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:09 +0000
Subject: [PATCH 49/50] fix: patch the payload format in place so that unusual
 headers survive

Rebuilding the header sorts its tags and moves those outside of the
immutable region into it, so the header in a standard delta was not that
of the target package for such headers, and applying it never succeeded.
---
 src/drpm_rpm.c | 73 +++++++++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index ab72ab4..7e419fe 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -54,7 +54,6 @@ static void rpm_init(struct rpm *);
 static void rpm_free(struct rpm *);
 static int rpm_export_header(struct rpm *, unsigned char **, size_t *);
 static int rpm_export_signature(struct rpm *, unsigned char **, size_t *);
-static void rpm_header_unload_region(struct rpm *, rpmTagVal);
 static int rpm_read_archive(struct rpm *, const char *, off_t, bool,
                             unsigned short *, MD5_CTX *, MD5_CTX *);
 
@@ -144,36 +143,6 @@ int rpm_export_header(struct rpm *rpmst, unsigned char **header_ret, size_t *len
     return DRPM_ERR_OK;
 }
 
-void rpm_header_unload_region(struct rpm *rpmst, rpmTagVal rpmtag)
-{
-    Header hdr;
-    HeaderIterator hdr_iter;
-    rpmtd copy_td;
-    rpmtd td = rpmtdNew();
-
-    if (headerGet(rpmst->header, rpmtag, td, HEADERGET_DEFAULT)) {
-        headerFree(rpmst->header);
-        rpmst->header = headerNew();
-        copy_td = rpmtdNew();
-
-        hdr = headerImport(td->data, 0, HEADERIMPORT_COPY);
-        hdr_iter = headerInitIterator(hdr);
-
-        while (headerNext(hdr_iter, copy_td)) {
-            if (copy_td->data)
-                headerPut(rpmst->header, copy_td, HEADERPUT_DEFAULT);
-            rpmtdFreeData(copy_td);
-        }
-
-        headerFreeIterator(hdr_iter);
-        headerFree(hdr);
-        rpmtdFreeData(td);
-        rpmtdFree(copy_td);
-    }
-
-    rpmtdFree(td);
-}
-
 int rpm_read_archive(struct rpm *rpmst, const char *filename,
                      off_t offset, bool decompress, unsigned short *comp_ret,
                      MD5_CTX *seq_md5, MD5_CTX *full_md5)
@@ -713,23 +682,49 @@ int rpm_get_payload_format(struct rpm *rpmst, unsigned short *payfmt)
     return DRPM_ERR_OK;
 }
 
-/* Replaces the payload format information in the header. */
+/* Replaces the payload format information in the header.
+ * This is done in place so as to leave everything else as it is. */
 int rpm_patch_payload_format(struct rpm *rpmst, const char *new_payfmt)
 {
+    int error;
+    Header patched;
+    const char *payload_format;
+    unsigned char *header;
+    size_t header_size;
+    uint32_t offset;
+    uint64_t pos;
+
     if (rpmst == NULL || new_payfmt == NULL)
         return DRPM_ERR_PROG;
 
-    rpm_header_unload_region(rpmst, RPMTAG_HEADERIMMUTABLE);
-
-    if (headerDel(rpmst->header, RPMTAG_PAYLOADFORMAT) != 0)
+    if ((payload_format = headerGetString(rpmst->header, RPMTAG_PAYLOADFORMAT)) == NULL ||
+        strlen(payload_format) != strlen(new_payfmt))
         return DRPM_ERR_FORMAT;
 
-    if (headerPutString(rpmst->header, RPMTAG_PAYLOADFORMAT, new_payfmt) != 1)
-        return DRPM_ERR_FORMAT;
+    if ((error = rpm_find_payload_format_offset(rpmst, &offset)) != DRPM_ERR_OK ||
+        (error = rpm_export_header(rpmst, &header, &header_size)) != DRPM_ERR_OK)
+        return error;
 
-    rpmst->header = headerReload(rpmst->header, RPMTAG_HEADERIMMUTABLE);
+    pos = 16 + (uint64_t)parse_be32(header + 8) * 16 + offset;
+    if (pos + strlen(new_payfmt) > header_size ||
+        memcmp(header + pos, payload_format, strlen(new_payfmt)) != 0) {
+        error = DRPM_ERR_FORMAT;
+        goto cleanup;
+    }
+    memcpy(header + pos, new_payfmt, strlen(new_payfmt));
 
-    return DRPM_ERR_OK;
+    if ((patched = headerImport(header + sizeof(rpm_header_magic), 0, HEADERIMPORT_COPY)) == NULL) {
+        error = DRPM_ERR_OTHER;
+        goto cleanup;
+    }
+
+    headerFree(rpmst->header);
+    rpmst->header = patched;
+
+cleanup:
+    free(header);
+
+    return error;
 }
 
 /* Fetches a list of file information from the header. */
-- 
2.43.0


From 20c663738021f524229a52967b66a3559ff1d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 50/50] fix: refuse packages whose header librpm does not give
 back as it is in the file

For such a package (one without a header region, for instance) a delta
was made of other data than the package is made of, and applying it
succeeded but produced another file than the target package.
---
 src/drpm_rpm.c | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 7e419fe..37fa83e 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -54,6 +54,7 @@ static void rpm_init(struct rpm *);
 static void rpm_free(struct rpm *);
 static int rpm_export_header(struct rpm *, unsigned char **, size_t *);
 static int rpm_export_signature(struct rpm *, unsigned char **, size_t *);
+static int rpm_compare_data(FD_t, off_t, off_t, const unsigned char *, size_t);
 static int rpm_read_archive(struct rpm *, const char *, off_t, bool,
                             unsigned short *, MD5_CTX *, MD5_CTX *);
 
@@ -143,6 +144,30 @@ int rpm_export_header(struct rpm *rpmst, unsigned char **header_ret, size_t *len
     return DRPM_ERR_OK;
 }
 
+/* Makes sure that the exported data is what there is in the file between
+ * <offset> and <end>, as librpm does not preserve everything it accepts. */
+int rpm_compare_data(FD_t file, off_t offset, off_t end, const unsigned char *data, size_t data_len)
+{
+    unsigned char buffer[BUFFER_SIZE];
+    size_t len;
+
+    if ((size_t)(end - offset) != data_len)
+        return DRPM_ERR_FORMAT;
+
+    if (Fseek(file, offset, SEEK_SET) < 0)
+        return DRPM_ERR_IO;
+
+    for (; data_len > 0; data += len, data_len -= len) {
+        len = MIN(data_len, BUFFER_SIZE);
+        if (Fread(buffer, 1, len, file) != (ssize_t)len)
+            return DRPM_ERR_IO;
+        if (memcmp(buffer, data, len) != 0)
+            return DRPM_ERR_FORMAT;
+    }
+
+    return DRPM_ERR_OK;
+}
+
 int rpm_read_archive(struct rpm *rpmst, const char *filename,
                      off_t offset, bool decompress, unsigned short *comp_ret,
                      MD5_CTX *seq_md5, MD5_CTX *full_md5)
@@ -219,6 +244,8 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     FD_t file;
     const unsigned char magic_rpm[4] = {0xED, 0xAB, 0xEE, 0xDB};
     off_t file_pos;
+    off_t header_pos;
+    off_t header_end;
     bool include_archive;
     bool decomp_archive = false;
     MD5_CTX seq_md5;
@@ -264,13 +291,16 @@ int rpm_read(struct rpm **rpmst, const char *filename,
         ((*rpmst)->signature = headerRead(file, HEADER_MAGIC_YES)) == NULL ||
         (file_pos = Ftell(file)) < 0 ||
         Fseek(file, RPMSIG_PADDING(file_pos), SEEK_CUR) < 0 ||
-        ((*rpmst)->header = headerRead(file, HEADER_MAGIC_YES)) == NULL) {
+        (header_pos = Ftell(file)) < 0 ||
+        ((*rpmst)->header = headerRead(file, HEADER_MAGIC_YES)) == NULL ||
+        (header_end = Ftell(file)) < 0) {
         error = Ferror(file) ? DRPM_ERR_IO : DRPM_ERR_FORMAT;
         goto cleanup_fail;
     }
 
     if (seq_md5_digest != NULL) {
-        if ((error = rpm_export_header(*rpmst, &header, &header_len)) != DRPM_ERR_OK)
+        if ((error = rpm_export_header(*rpmst, &header, &header_len)) != DRPM_ERR_OK ||
+            (error = rpm_compare_data(file, header_pos, header_end, header, header_len)) != DRPM_ERR_OK)
             goto cleanup_fail;
         if (MD5_Init(&seq_md5) != 1 ||
             MD5_Update(&seq_md5, header, header_len) != 1) {
@@ -281,7 +311,9 @@ int rpm_read(struct rpm **rpmst, const char *filename,
 
     if (full_md5_digest != NULL) {
         if ((error = rpm_export_signature(*rpmst, &signature, &signature_len)) != DRPM_ERR_OK ||
-            (header == NULL && (error = rpm_export_header(*rpmst, &header, &header_len)) != DRPM_ERR_OK))
+            (error = rpm_compare_data(file, RPMLEAD_SIZE, header_pos, signature, signature_len)) != DRPM_ERR_OK ||
+            (header == NULL && (error = rpm_export_header(*rpmst, &header, &header_len)) != DRPM_ERR_OK) ||
+            (error = rpm_compare_data(file, header_pos, header_end, header, header_len)) != DRPM_ERR_OK)
             goto cleanup_fail;
         if (MD5_Init(&full_md5) != 1 ||
             MD5_Update(&full_md5, (*rpmst)->lead, RPMLEAD_SIZE) != 1 ||
@@ -293,11 +325,7 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     }
 
     if (include_archive) {
-        if ((file_pos = Ftell(file)) < 0) {
-            error = DRPM_ERR_IO;
-            goto cleanup_fail;
-        }
-        if ((error = rpm_read_archive(*rpmst, filename, file_pos,
+        if ((error = rpm_read_archive(*rpmst, filename, header_end,
                                       decomp_archive, archive_comp,
                                       (seq_md5_digest != NULL) ? &seq_md5 : NULL,
                                       (full_md5_digest != NULL) ? &full_md5 : NULL)) != DRPM_ERR_OK)
-- 
2.43.0

