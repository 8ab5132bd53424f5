From 269b3d82dcc95c6c2c2061759a603bdab204934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 01/86] fix: bpak_del_meta corrupts or leaks data of other
 entries

Deleting an entry in front of a larger one cleared the tail of the moved
data, deleting from a full table wrote behind the meta slots into the
part table and left the last slot in place, and the bytes freed at the
end of the data area were not cleared.
---
 lib/bpak.c | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index ddf7625..3966957 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -80,30 +80,27 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
                                struct bpak_meta_header *meta)
 {
-    struct bpak_meta_header *next_meta = meta + 1;
-    uint16_t offset_adjust = meta->size;
-
-    offset_adjust = BPAK_META_ALIGN_SIZE(offset_adjust);
-
-    while(meta != &(hdr->meta[BPAK_MAX_META - 1])) {
-        if (next_meta->id != 0) {
-            memmove(&(hdr->metadata[next_meta->offset - offset_adjust]),
-                    &(hdr->metadata[next_meta->offset]),
-                    next_meta->size);
-            memset(&(hdr->metadata[next_meta->offset]), 0, next_meta->size);
-
-            next_meta->offset -= offset_adjust;
-        }
-
-        memcpy(meta, next_meta, sizeof(*meta));
-
-        if (!meta->id)
-            break;
-
-        meta = next_meta++;
+    struct bpak_meta_header *last = &(hdr->meta[BPAK_MAX_META - 1]);
+    size_t start = BPAK_MIN(meta->offset, BPAK_METADATA_BYTES);
+    size_t end = BPAK_MIN(start + BPAK_META_ALIGN_SIZE((size_t)meta->size),
+                          BPAK_METADATA_BYTES);
+    size_t adjust = end - start;
+
+    /* Close the gap in the data area and clear what is freed at the end */
+    memmove(&(hdr->metadata[start]),
+            &(hdr->metadata[end]),
+            BPAK_METADATA_BYTES - end);
+    memset(&(hdr->metadata[BPAK_METADATA_BYTES - adjust]), 0, adjust);
+
+    /* Remove the slot */
+    memmove(meta, meta + 1, (last - meta) * sizeof(*meta));
+    memset(last, 0, sizeof(*last));
+
+    /* Update the entries that had their data moved */
+    bpak_foreach_meta (hdr, m) {
+        if (m->id && m->offset >= end)
+            m->offset -= adjust;
     }
-
-    memset(next_meta, 0, sizeof(*next_meta));
 }
 
 BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
-- 
2.43.0


From 48c26c0fe30e3a8290036fd5d6249f884eabb446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 02/86] fix: bpak_add_meta leaves an entry behind when there is
 no space

---
 lib/bpak.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 3966957..34b90be 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -56,13 +56,13 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
+            if ((new_offset + size) > BPAK_METADATA_BYTES)
+                return -BPAK_NO_SPACE_LEFT;
+
             m->id = id;
             m->offset = new_offset;
             m->size = size;
             m->part_id_ref = part_ref_id;
-            if ((m->offset + m->size) > BPAK_METADATA_BYTES)
-                return -BPAK_NO_SPACE_LEFT;
-
             *meta = m;
             return BPAK_OK;
         } else if (m->id == id && m->part_id_ref == part_ref_id) {
-- 
2.43.0


From 54cec25074561432e01b19aaf03fcfdf97dec781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 03/86] fix: bpak_pkg_add_key writes uninitialised stack memory
 as padding

The padding was read from a one byte variable, and the key was released
with free() instead of the configured allocator.
---
 lib/pkg_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 38f132e..2f73a9f 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -341,8 +341,8 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     }
 
     /* Write zero padding */
-    uint8_t zero = 0;
-    if (fwrite(&zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
+    uint8_t zeros[BPAK_PART_ALIGN] = { 0 };
+    if (fwrite(zeros, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
         rc = -BPAK_WRITE_ERROR;
         goto err_free_key_out;
     }
@@ -360,6 +360,6 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
         goto err_free_key_out;
 
 err_free_key_out:
-    free(key);
+    bpak_free(key);
     return rc;
 }
-- 
2.43.0


From a2bb46ea501f837c2416a22c4316122a623840c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 04/86] fix: parts added after a transport encoded part are
 stored at the wrong offset

Encoded parts occupy transport_size bytes, not size + pad_bytes.
---
 lib/pkg_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 2f73a9f..cf3025d 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -120,7 +120,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     /* Write tree to bpak file */
 
     bpak_foreach_part (h, p) {
-        new_offset += (p->size + p->pad_bytes);
+        new_offset += bpak_part_size(p);
     }
 
     /* Add salt */
@@ -218,7 +218,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     bpak_printf(1, "Adding %s <%s>\n", part_name, filename);
 
     bpak_foreach_part (h, p) {
-        new_offset += (p->size + p->pad_bytes);
+        new_offset += bpak_part_size(p);
     }
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
@@ -306,7 +306,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
 
     /* Write header */
     bpak_foreach_part (h, p) {
-        new_offset += (p->size + p->pad_bytes);
+        new_offset += bpak_part_size(p);
     }
 
     rc = bpak_add_part(h, bpak_id(part_name), &p);
-- 
2.43.0


From 632b5ebee5eec0c7d45dfc9acd3c496792415f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 05/86] fix: failed additions leave a half-added part in the
 archive

A part whose source cannot be read completely, or a hash tree that can not
be added, left the part header, its data and its metadata in the package.
Adding a directory never terminated.
---
 lib/pkg_create.c | 90 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 81 insertions(+), 9 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index cf3025d..08d4d6e 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -21,6 +21,29 @@
 #include <bpak/crc.h>
 #include <bpak/crypto.h>
 
+/* Remember the length of the package file, to be able to undo an addition */
+static int package_length(struct bpak_package *pkg, long *length)
+{
+    if (fseek(pkg->fp, 0, SEEK_END) != 0)
+        return -BPAK_SEEK_ERROR;
+
+    *length = ftell(pkg->fp);
+
+    return (*length < 0) ? -BPAK_SEEK_ERROR : BPAK_OK;
+}
+
+/* Undo a failed addition: restore the header and drop appended data */
+static void undo_addition(struct bpak_package *pkg,
+                          const struct bpak_header *header, long length)
+{
+    memcpy(&pkg->header, header, sizeof(*header));
+
+    (void)fflush(pkg->fp);
+
+    if (ftruncate(fileno(pkg->fp), length) != 0)
+        bpak_printf(0, "Error: Could not truncate package\n");
+}
+
 #if BPAK_CONFIG_MERKLE == 1
 static ssize_t merkle_wr(off_t offset, uint8_t *buf, size_t size, void *priv)
 {
@@ -48,24 +71,36 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     uint8_t block_buf[BPAK_CHUNK_BUFFER_LENGTH];
     size_t chunk_sz;
     uint64_t new_offset = sizeof(*h);
+    struct bpak_header saved_header = *h;
+    long saved_length = 0;
 
     if (stat(filename, &statbuf) != 0) {
         bpak_printf(0, "Error: Can't open file '%s'\n", filename);
         return -BPAK_FILE_NOT_FOUND;
     }
 
-    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
-
-    if (rc != 0)
-        return rc;
-
     ssize_t merkle_sz = bpak_merkle_compute_size(statbuf.st_size);
 
     if (merkle_sz < 0)
         return merkle_sz;
 
+    rc = package_length(pkg, &saved_length);
+
+    if (rc != BPAK_OK)
+        return rc;
+
     char *merkle_buf = bpak_calloc(merkle_sz, 1);
 
+    if (merkle_buf == NULL)
+        return -BPAK_FAILED;
+
+    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
+
+    if (rc != 0) {
+        bpak_free(merkle_buf);
+        return rc;
+    }
+
     memset(merkle_buf, 0, merkle_sz);
 
     bpak_printf(1, "Allocated %li bytes for merkle tree\n", merkle_sz);
@@ -90,6 +125,9 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                           true,
                           merkle_buf);
 
+    if (rc != BPAK_OK)
+        goto err_free_buf_out;
+
     FILE *fp = fopen(filename, "rb");
 
     if (fp == NULL) {
@@ -97,7 +135,6 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
         goto err_free_buf_out;
     }
 
-    rc = BPAK_OK;
     while (true) {
         chunk_sz = fread(block_buf, 1, sizeof(block_buf), fp);
 
@@ -192,6 +229,13 @@ err_close_fp_out:
     fclose(fp);
 err_free_buf_out:
     bpak_free(merkle_buf);
+
+    if (rc != BPAK_OK) {
+        undo_addition(pkg, &saved_header, saved_length);
+        /* The header was written when the data part was added */
+        (void)bpak_pkg_write_header(pkg);
+    }
+
     return rc;
 }
 
@@ -207,6 +251,8 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     struct stat statbuf;
     uint64_t new_offset = sizeof(struct bpak_header);
     char chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
+    struct bpak_header saved_header = *h;
+    long saved_length = 0;
 
     if (stat(filename, &statbuf) != 0) {
         bpak_printf(0, "Error: can't open file '%s'\n", filename);
@@ -217,6 +263,11 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     bpak_printf(1, "Adding %s <%s>\n", part_name, filename);
 
+    rc = package_length(pkg, &saved_length);
+
+    if (rc != BPAK_OK)
+        return rc;
+
     bpak_foreach_part (h, p) {
         new_offset += bpak_part_size(p);
     }
@@ -242,7 +293,8 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     if (rc != 0) {
         bpak_printf(0, "Error: Could not seek to new pos\n");
-        return -BPAK_SEEK_ERROR;
+        rc = -BPAK_SEEK_ERROR;
+        goto err_undo_out;
     }
 
     uint64_t bytes_to_write = p->size;
@@ -251,11 +303,19 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
     if (!in_fp) {
         bpak_printf(0, "Could not open input file: %s\n", filename);
-        return -BPAK_FILE_NOT_FOUND;
+        rc = -BPAK_FILE_NOT_FOUND;
+        goto err_undo_out;
     }
 
     while (bytes_to_write) {
-        size_t read_bytes = fread(chunk_buffer, 1, sizeof(chunk_buffer), in_fp);
+        size_t chunk_length = BPAK_MIN(bytes_to_write, sizeof(chunk_buffer));
+        size_t read_bytes = fread(chunk_buffer, 1, chunk_length, in_fp);
+
+        if (read_bytes == 0) {
+            rc = -BPAK_READ_ERROR;
+            break;
+        }
+
         if (fwrite(chunk_buffer, 1, read_bytes, pkg->fp) != read_bytes) {
             rc = -BPAK_WRITE_ERROR;
             break;
@@ -287,6 +347,9 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
 
 err_close_fp:
     fclose(in_fp);
+err_undo_out:
+    if (rc != BPAK_OK)
+        undo_addition(pkg, &saved_header, saved_length);
     return rc;
 }
 
@@ -298,6 +361,13 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     struct bpak_header *h = bpak_pkg_header(pkg);
     struct bpak_part_header *p = NULL;
     uint64_t new_offset = sizeof(struct bpak_header);
+    struct bpak_header saved_header = *h;
+    long saved_length = 0;
+
+    rc = package_length(pkg, &saved_length);
+
+    if (rc != BPAK_OK)
+        return rc;
 
     rc = bpak_crypto_load_public_key(filename, &key);
 
@@ -360,6 +430,8 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
         goto err_free_key_out;
 
 err_free_key_out:
+    if (rc != BPAK_OK)
+        undo_addition(pkg, &saved_header, saved_length);
     bpak_free(key);
     return rc;
 }
-- 
2.43.0


From 7f72362da01ba1c37dda1887a263055744e178ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 06/86] fix: bsdiff searches past the end of the suffix array

The array has origin_length entries, the search started with
origin_length as the last index. An empty origin can not be searched.
---
 lib/bsdiff.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index e1b9fa8..aeb405e 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -54,6 +54,11 @@ static int64_t search(int64_t *sa_p, uint8_t *from_p, int64_t from_size,
     int64_t x;
     int64_t y;
 
+    if (from_size == 0) {
+        *pos_p = 0;
+        return 0;
+    }
+
     if (from_end - from_begin < 2) {
         x = matchlen(from_p + sa_p[from_begin],
                      from_size - sa_p[from_begin],
@@ -625,7 +630,9 @@ BPAK_EXPORT int bpak_bsdiff_init(struct bpak_bsdiff_context *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    ctx->suffix_array = bpak_calloc(origin_length, sizeof(int64_t));
+    /* The array is never empty, allocators may refuse to allocate nothing */
+    ctx->suffix_array = bpak_calloc((origin_length > 0) ? origin_length : 1,
+                                    sizeof(int64_t));
 
     if (!ctx->suffix_array) {
         rc = -BPAK_FAILED;
@@ -675,7 +682,7 @@ BPAK_EXPORT ssize_t bpak_bsdiff(struct bpak_bsdiff_context *ctx)
                               ctx->new_data + ctx->scan,
                               ctx->new_length - ctx->scan,
                               0,
-                              ctx->origin_length,
+                              (int64_t)ctx->origin_length - 1,
                               &(ctx->pos));
 
             for (; scsc < ctx->scan + ctx->len; scsc++) {
-- 
2.43.0


From 596e4e958817880e4e1c38fdef2e95c78932f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 07/86] fix: transport decode refuses packages with new parts

Parts that are not transport encoded do not need a counterpart in the
origin, encoding such a package was possible but decoding it was not.
---
 lib/pkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 2f11cc2..ea5d15c 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -321,8 +321,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         if (part->id == 0)
             break;
 
-        /* Compute origin and output offsets */
-        if (origin != NULL) {
+        /* Encoded parts are decoded against the same part in origin */
+        if ((origin != NULL) && (part->flags & BPAK_FLAG_TRANSPORT)) {
             rc = bpak_get_part(&origin->header, part->id, &origin_part);
 
             if (rc != BPAK_OK) {
-- 
2.43.0


From 749ec218ef06fd433782e007d9bbf8f7045aab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 08/86] fix: transport decode compares the package uuid of the
 origin with itself

The uuid of the patch was looked up in the metadata of the origin.
---
 lib/transport_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 935cf40..6677878 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -184,7 +184,7 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    patch_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+    patch_package_uuid = bpak_get_meta_ptr(ctx->patch_header, meta, uint8_t);
 
     if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
         return -BPAK_PACKAGE_UUID_MISMATCH;
-- 
2.43.0


From 4d683e60637dc78871a5f634f8b026f0d1533f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 09/86] fix: transport encode dereferences missing package uuid
 metadata

---
 lib/transport_encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index b7dfbb4..cc9c4fa 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -368,21 +368,21 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
                            0,
                            &meta);
 
-        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+
         rc = bpak_get_meta(input_header,
                            BPAK_ID_BPAK_PACKAGE,
                            0,
                            &meta);
 
-        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
+
         if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
             return -BPAK_PACKAGE_UUID_MISMATCH;
     }
-- 
2.43.0


From 685a19247a4c1bfe97c277ee6e54de66c9a08c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 10/86] fix: transport encode drops the data of parts that
 already are encoded

---
 lib/transport_encode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index cc9c4fa..2264532 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -394,7 +394,9 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
         if (ph->id == 0)
             break;
 
-        if (bpak_get_meta(input_header,
+        /* Parts that already are encoded are copied as they are */
+        if (!(ph->flags & BPAK_FLAG_TRANSPORT) &&
+            bpak_get_meta(input_header,
                           BPAK_ID_BPAK_TRANSPORT,
                           ph->id,
                           &meta) == BPAK_OK) {
-- 
2.43.0


From c138315dc5fd9a0462ce359e4ef679a452f096c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 11/86] fix: bpak transport uses an uninitialised origin
 package

Without --origin the address of an uninitialised package was used, and
the output package was never closed.
---
 src/transport.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 8b1a6c2..bf309ce 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -127,6 +127,7 @@ int action_transport(int argc, char **argv)
 
         if (rc != BPAK_OK) {
             fprintf(stderr, "Error: Could not open package %s\n", origin_file);
+            bpak_pkg_close(&input);
             return rc;
         }
     }
@@ -149,12 +150,14 @@ int action_transport(int argc, char **argv)
     }
 
     if (encode_flag) {
-        rc = bpak_pkg_transport_encode(&input, &output, &origin);
+        rc = bpak_pkg_transport_encode(&input,
+                                       &output,
+                                       origin_file ? &origin : NULL);
     } else if (decode_flag) {
         rc = bpak_pkg_transport_decode(
             &input, /* Input package or 'patch' */
             &output,
-            &origin); /* Origin data to use for patch operation*/
+            origin_file ? &origin : NULL); /* Origin data to use for patch operation*/
     } else if (add_flag && encoder_alg && decoder_alg) {
         rc = bpak_add_transport_meta(&input.header,
                                      part_ref,
@@ -176,6 +179,9 @@ int action_transport(int argc, char **argv)
         fprintf(stderr, "Error: Transport encoding/decoding failed\n");
     }
 
+    if (encode_flag || decode_flag)
+        bpak_pkg_close(&output);
+
 err_out:
     bpak_pkg_close(&input);
 
-- 
2.43.0


From e943fa5d6eb54485cf09b8dc69b5a3f56e905a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 12/86] fix: bspatch accepts negative lengths and origin
 positions

---
 lib/bspatch.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 6389961..c18ec1d 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -51,6 +51,21 @@ static int64_t offtin(uint8_t *buf)
     return y;
 }
 
+/* Move the origin position, the result must stay within the range of off_t */
+static int bspatch_adjust(struct bpak_bspatch_context *ctx)
+{
+    if (ctx->adjust < 0) {
+        if (ctx->origin_position < -ctx->adjust)
+            return -BPAK_PATCH_READ_ORIGIN_ERROR;
+    } else if (ctx->adjust >
+               INT64_MAX - ctx->origin_offset - ctx->origin_position) {
+        return -BPAK_PATCH_READ_ORIGIN_ERROR;
+    }
+
+    ctx->origin_position += ctx->adjust;
+    return BPAK_OK;
+}
+
 static int bspatch_write(struct bpak_bspatch_context *ctx, uint8_t *buffer,
                          size_t length)
 {
@@ -89,6 +104,13 @@ process_more:
                     ctx->adjust,
                     bytes_available);
 
+        if (ctx->diff_count < 0 || ctx->extra_count < 0) {
+            bpak_printf(0, "Error: Corrupt patch\n");
+            ctx->state = BPAK_PATCH_STATE_ERROR;
+            rc = -BPAK_DECOMPRESSOR_ERROR;
+            break;
+        }
+
         ctx->state = BPAK_PATCH_STATE_APPLY_DIFF;
 
         if (bytes_available)
@@ -152,7 +174,11 @@ process_more:
             if (ctx->extra_count > 0) {
                 ctx->state = BPAK_PATCH_STATE_APPLY_EXTRA;
             } else {
-                ctx->origin_position += ctx->adjust;
+                rc = bspatch_adjust(ctx);
+                if (rc != BPAK_OK) {
+                    ctx->state = BPAK_PATCH_STATE_ERROR;
+                    break;
+                }
                 ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
                 ctx->ctrl_buf_count = 0;
             }
@@ -188,9 +214,13 @@ process_more:
         pp += data_to_process;
 
         if (ctx->extra_count == 0) {
+            rc = bspatch_adjust(ctx);
+            if (rc != BPAK_OK) {
+                ctx->state = BPAK_PATCH_STATE_ERROR;
+                break;
+            }
             ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
             ctx->ctrl_buf_count = 0;
-            ctx->origin_position += ctx->adjust;
 
             if (bytes_available > 0) {
                 goto process_more;
-- 
2.43.0


From 05132a1b7f36385f6f77c27c289f340beed602a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 13/86] fix: transport decode does not check the size of copied
 parts

---
 lib/transport_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 6677878..8255ac1 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -339,7 +339,7 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
         break;
 #endif
     case 0: /* Copy data */
-        output_length = bpak_part_size(ctx->part);
+        output_length = ctx->copy_offset;
         break;
     default:
         return -BPAK_NOT_SUPPORTED;
-- 
2.43.0


From f14f7fa5846a16cf26e6335d8294cb6fd4b6559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 14/86] fix: bpak_merkle_init refuses hash trees with four
 levels

---
 lib/merkle.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index 6fe9efe..f59fe62 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -76,7 +76,8 @@ BPAK_EXPORT int bpak_merkle_init(struct bpak_merkle_context *ctx,
         ctx->hash_tree_length += level_length;
         level = level + 1;
 
-        if (level >= BPAK_MERKLE_MAX_LEVELS)
+        if (level == BPAK_MERKLE_MAX_LEVELS &&
+            level_length != BPAK_MERKLE_BLOCK_SZ)
             return -BPAK_NO_SPACE_LEFT;
 
     } while (level_length != BPAK_MERKLE_BLOCK_SZ);
-- 
2.43.0


From c19fb861cf067b099c634f0d02c86be45187c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 15/86] fix: bpak_bin2hex writes past the end of the buffer

---
 lib/utils.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index d32597e..c93c34a 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -25,20 +25,18 @@ BPAK_EXPORT int bpak_bin2hex(uint8_t *data, size_t data_sz, char *buf,
     size_t i = data_sz;
     size_t n = 0;
 
+    /* Two characters per byte and the terminating zero */
+    if (buf_sz == 0 || data_sz > (buf_sz - 1) / 2)
+        return -BPAK_SIZE_ERROR;
+
     for (i = 0; i < data_sz; i++) {
         b = data[i];
         b = (b >> 4) & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
 
-        if (n > buf_sz)
-            return -1;
-
         b = data[i];
         b = b & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
-
-        if (n > buf_sz)
-            return -1;
     }
 
     buf[n] = 0;
-- 
2.43.0


From 39b55c78f9efcb0755241a8c0579f1403c8f06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 16/86] fix: bpak_meta_to_string ignores the size of the entry
 and of the buffer

---
 lib/utils.c | 61 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index c93c34a..4522423 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -60,47 +60,74 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
 {
     bpak_id_t *id_ptr = NULL;
     uint8_t *byte_ptr = NULL;
+    size_t min_size = 0;
+    int n = 0;
+
+    if (size == 0)
+        return -BPAK_SIZE_ERROR;
+
+    *buf = 0;
+
+    /* The entry must hold the complete value */
+    if (m->id == BPAK_ID_BPAK_KEY_ID || m->id == BPAK_ID_BPAK_KEY_STORE ||
+        m->id == BPAK_ID_KEYSTORE_PROVIDER_ID)
+        min_size = sizeof(bpak_id_t);
+    else if (m->id == BPAK_ID_BPAK_PACKAGE)
+        min_size = 16;
+    else if (m->id == BPAK_ID_BPAK_TRANSPORT)
+        min_size = 2 * sizeof(uint32_t);
+    else if (m->id == BPAK_ID_MERKLE_SALT || m->id == BPAK_ID_MERKLE_ROOT_HASH)
+        min_size = 32;
+    else if (m->id == BPAK_ID_PB_LOAD_ADDR)
+        min_size = sizeof(uint64_t);
+
+    if (m->size < min_size)
+        return -BPAK_SIZE_ERROR;
 
     if (m->id == BPAK_ID_BPAK_KEY_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
-        snprintf(buf, size, "%" PRIx32, *id_ptr);
+        n = snprintf(buf, size, "%" PRIx32, *id_ptr);
     } else if (m->id == BPAK_ID_BPAK_KEY_STORE) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
-        snprintf(buf, size, "%" PRIx32, *id_ptr);
+        n = snprintf(buf, size, "%" PRIx32, *id_ptr);
     } else if (m->id == BPAK_ID_BPAK_PACKAGE) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_uuid_to_string(byte_ptr, buf, size);
+        return bpak_uuid_to_string(byte_ptr, buf, size);
     } else if (m->id == BPAK_ID_BPAK_TRANSPORT) {
         struct bpak_transport_meta *transport_meta =
             bpak_get_meta_ptr(h, m, struct bpak_transport_meta);
 
-        snprintf(buf,
-                 size,
-                 "Encode: %8.8" PRIx32 ", Decode: %8.8" PRIx32,
-                 transport_meta->alg_id_encode,
-                 transport_meta->alg_id_decode);
+        n = snprintf(buf,
+                     size,
+                     "Encode: %8.8" PRIx32 ", Decode: %8.8" PRIx32,
+                     transport_meta->alg_id_encode,
+                     transport_meta->alg_id_decode);
     } else if (m->id == BPAK_ID_MERKLE_SALT) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        return bpak_bin2hex(byte_ptr, 32, buf, size);
     } else if (m->id == BPAK_ID_MERKLE_ROOT_HASH) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        return bpak_bin2hex(byte_ptr, 32, buf, size);
     } else if (m->id == BPAK_ID_PB_LOAD_ADDR) {
         uint64_t *entry_addr = bpak_get_meta_ptr(h, m, uint64_t);
-        snprintf(buf, size, "Entry: 0x%08" PRIX64, *entry_addr);
+        n = snprintf(buf, size, "Entry: 0x%08" PRIX64, *entry_addr);
     } else if (m->id == BPAK_ID_BPAK_VERSION) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
+        size_t length = strnlen((char *)byte_ptr, m->size);
 
-        if (m->size > size)
+        if (length >= size)
             return -BPAK_SIZE_ERROR;
 
-        memcpy(buf, byte_ptr, m->size);
+        memcpy(buf, byte_ptr, length);
+        buf[length] = 0;
     } else if (m->id == BPAK_ID_KEYSTORE_PROVIDER_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
-        snprintf(buf, size, "0x%" PRIx32, *id_ptr);
-    } else {
-        if (size)
-            *buf = 0;
+        n = snprintf(buf, size, "0x%" PRIx32, *id_ptr);
+    }
+
+    if (n < 0 || (size_t)n >= size) {
+        *buf = 0;
+        return -BPAK_SIZE_ERROR;
     }
 
     return BPAK_OK;
-- 
2.43.0


From 8a9464c5a9e9864e2ddcaefbfb39b38ad6dd965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 17/86] fix: bpak show can not print sha512 hashes

---
 src/show.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/show.c b/src/show.c
index 4a6b859..15aaf4f 100644
--- a/src/show.c
+++ b/src/show.c
@@ -37,7 +37,7 @@ int action_show(int argc, char **argv)
     bpak_id_t part_id = 0;
     bpak_id_t part_hash_id = 0;
     bpak_id_t meta_id = 0;
-    char hash_str[128];
+    char hash_str[BPAK_HASH_MAX_LENGTH * 2 + 1];
 
     struct option long_options[] = {
         { "help", no_argument, 0, 'h' },
-- 
2.43.0


From fc5950c906bc506f1aa94d719cbfeee620ebf26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 18/86] fix: bpak_verify_compute_header_hash does not report
 errors

---
 lib/verify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/verify.c b/lib/verify.c
index 8be98db..f20f60f 100644
--- a/lib/verify.c
+++ b/lib/verify.c
@@ -55,7 +55,7 @@ BPAK_EXPORT int bpak_verify_compute_header_hash(struct bpak_header *header,
 
 err_free_hash_ctx_out:
     bpak_hash_free(&hash_ctx);
-    return BPAK_OK;
+    return rc;
 }
 
 BPAK_EXPORT int bpak_verify_compute_payload_hash(struct bpak_header *header,
-- 
2.43.0


From 7e3595cdc82538b4fe0507676286ede6c0c67bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 19/86] fix: show --hash prints stack contents when the hash
 can not be computed

---
 src/show.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/show.c b/src/show.c
index 15aaf4f..a754b09 100644
--- a/src/show.c
+++ b/src/show.c
@@ -189,7 +189,10 @@ int action_show(int argc, char **argv)
         goto err_pkg_close;
     } else if (text_hash_output) {
         hash_size = sizeof(hash_output);
-        bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+        rc = bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+
+        if (rc != BPAK_OK)
+            goto err_pkg_close;
 
         for (unsigned int i = 0; i < hash_size; i++)
             printf("%2.2x", hash_output[i] & 0xFF);
-- 
2.43.0


From 2067908361ced180ce46773525bcae06d1dd888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 20/86] fix: header validation and part offsets stop at the
 first empty slot

---
 lib/bpak.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 34b90be..f60ef78 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -235,7 +235,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check alignment of part data blocks */
     bpak_foreach_part (hdr, p) {
         if (!p->id)
-            break;
+            continue;
 
         if (((p->size + p->pad_bytes) % BPAK_PART_ALIGN) != 0)
             return -BPAK_BAD_ALIGNMENT;
@@ -244,7 +244,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check for out-of-bounds metadata */
     bpak_foreach_meta (hdr, m) {
         if (!m->id)
-            break;
+            continue;
 
         if ((m->size + m->offset) > BPAK_METADATA_BYTES) {
             return -BPAK_SIZE_ERROR;
@@ -264,7 +264,7 @@ BPAK_EXPORT off_t bpak_part_offset(struct bpak_header *h,
 
     bpak_foreach_part (h, p) {
         if (!p->id)
-            break;
+            continue;
         if (p->id == part->id)
             break;
 
-- 
2.43.0


From fdf200da3fedf2ea40794dd8c8e086c2b424d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 21/86] fix: deleting a part from a truncated archive never
 terminates

---
 lib/pkg.c | 52 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index ea5d15c..db2f017 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -499,8 +499,36 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     p_offset = bpak_part_offset(h, part);
     p_size = bpak_part_size(part);
 
+    /* Check that all data that should be moved exist, before changing anything */
+    uint64_t data_end = sizeof(struct bpak_header);
+
+    bpak_foreach_part(h, p) {
+        if (!p->id)
+            continue;
+
+        size_t size = bpak_part_size(p);
+
+        if (size > INT64_MAX - data_end)
+            return -BPAK_SIZE_ERROR;
+
+        data_end += size;
+    }
+
+    if (fseek(pkg->fp, 0, SEEK_END) != 0)
+        return -BPAK_SEEK_ERROR;
+
+    long file_length = ftell(pkg->fp);
+
+    if (file_length < 0)
+        return -BPAK_SEEK_ERROR;
+
+    if ((uint64_t)file_length < data_end) {
+        bpak_printf(0, "%s: Error: Archive is truncated\n", __func__);
+        return -BPAK_READ_ERROR;
+    }
+
     bpak_del_part(h, part);
-    uint64_t bytes_to_process = 0;
+    uint64_t bytes_to_process = data_end - p_offset - p_size;
 
     /* Part now points to what previously was the part after the one we remove */
     for (; part != &(h->parts[BPAK_MAX_PARTS]); part++) {
@@ -508,7 +536,6 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
             break;
 
         part->offset -= p_size;
-        bytes_to_process += bpak_part_size(part);
     }
 
     /* Remove any meta-data that points to the part */
@@ -538,15 +565,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
         size_t chunk_length =
             BPAK_MIN(bytes_to_process, sizeof(copy_buffer));
-        size_t chunk_read = fread(copy_buffer, 1, BPAK_CHUNK_BUFFER_LENGTH, pkg->fp);
+        size_t chunk_read = fread(copy_buffer, 1, chunk_length, pkg->fp);
 
         if (chunk_read != chunk_length) {
-            rc = ferror(pkg->fp);
-            if (rc != 0) {
-                bpak_printf(0, "%s: Error: Couldn't read file: %d\n",
-                            __func__, rc);
-                return -BPAK_READ_ERROR;
-            }
+            bpak_printf(0, "%s: Error: Couldn't read file\n", __func__);
+            return -BPAK_READ_ERROR;
         }
 
         if (fseek(pkg->fp, write_offset, SEEK_SET) != 0 ||
@@ -575,16 +598,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
     fflush(pkg->fp);
 
-    size_t new_size = sizeof(struct bpak_header);
-
-    bpak_foreach_part(h, p) {
-        if (p->id == 0)
-            break;
-
-        new_size += bpak_part_size(p);
-    }
-
-    if (ftruncate(fileno(pkg->fp), new_size) != 0) {
+    if (ftruncate(fileno(pkg->fp), data_end - p_size) != 0) {
         bpak_printf(0, "%s: Error: Couldn't truncate file: %s\n",
                     __func__, strerror(errno));
         return -BPAK_WRITE_ERROR;
-- 
2.43.0


From a8f76aaa39d1260dbb2a64585939fdb6aaa385fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 22/86] fix: transport encode reads outside of the mapped files

---
 lib/transport_encode.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index 2264532..c69f883 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -113,6 +113,12 @@ static ssize_t bsdiff_write_output(off_t offset, uint8_t *buffer, size_t length,
     return bytes_written;
 }
 
+static bool range_in_file(off_t offset, size_t length, long file_length)
+{
+    return offset >= 0 && offset <= file_length &&
+           length <= (size_t)(file_length - offset);
+}
+
 static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
                                 size_t target_length, FILE *origin,
                                 off_t origin_offset, size_t origin_length,
@@ -142,6 +148,11 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
     if (target_file_sz == -1)
         return -BPAK_SEEK_ERROR;
 
+    if (!range_in_file(target_offset, target_length, target_file_sz)) {
+        bpak_printf(0, "Error: Target data is outside of the file\n");
+        return -BPAK_READ_ERROR;
+    }
+
     target_data_mmap =
         mmap(NULL, target_file_sz, PROT_READ, MAP_SHARED, target_fd, 0);
 
@@ -167,6 +178,12 @@ static ssize_t transport_bsdiff(FILE *target, off_t target_offset,
         goto err_munmap_target;
     }
 
+    if (!range_in_file(origin_offset, origin_length, origin_file_sz)) {
+        bpak_printf(0, "Error: Origin data is outside of the file\n");
+        rc = -BPAK_READ_ERROR;
+        goto err_munmap_target;
+    }
+
     origin_data_mmap =
         mmap(NULL, origin_file_sz, PROT_READ, MAP_SHARED, origin_fd, 0);
 
-- 
2.43.0


From 35d5adf7f3cb0f04ee5b99e14201523145ccfb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 23/86] fix: parts can be added to truncated archives

---
 lib/pkg_create.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 08d4d6e..e98d052 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -272,6 +272,11 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
         new_offset += bpak_part_size(p);
     }
 
+    if (new_offset > (uint64_t)saved_length) {
+        bpak_printf(0, "Error: Package is truncated\n");
+        return -BPAK_SIZE_ERROR;
+    }
+
     rc = bpak_add_part(h, bpak_id(part_name), &p);
 
     if (rc != BPAK_OK) {
@@ -379,6 +384,12 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
         new_offset += bpak_part_size(p);
     }
 
+    if (new_offset > (uint64_t)saved_length) {
+        bpak_printf(0, "Error: Package is truncated\n");
+        rc = -BPAK_SIZE_ERROR;
+        goto err_free_key_out;
+    }
+
     rc = bpak_add_part(h, bpak_id(part_name), &p);
 
     if (rc != BPAK_OK) {
-- 
2.43.0


From 8d9ba10a1dc7361a5543ed19e77962609fc24600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 24/86] fix: keys larger than 512 bytes overflow the stack when
 loaded from a keystore

---
 lib/keystore_load_from_file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 87e07db..8f56160 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -22,7 +22,7 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
                                                  struct bpak_key **output)
 {
     int rc;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     struct bpak_package pkg;
     struct bpak_part_header *key_part = NULL;
     struct bpak_meta_header *meta = NULL;
@@ -61,6 +61,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
 
     key_length = bpak_part_size_wo_pad(key_part);
 
+    if (key_length > sizeof(key_buffer)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_pkg_out;
+    }
+
     if (fseek(pkg.fp, bpak_part_offset(&pkg.header, key_part), SEEK_SET) != 0) {
         rc = -BPAK_SEEK_ERROR;
         goto err_close_pkg_out;
-- 
2.43.0


From 782a3d8ff11281937f6d7f9f1382c42551aa6a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 25/86] fix: RSA4096 public keys can not be parsed from memory

---
 lib/mbedtls_wrapper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 905dc94..2300da6 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -435,7 +435,7 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
 {
     int rc = BPAK_OK;
     struct bpak_key *key = NULL;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     enum bpak_key_kind kind;
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-- 
2.43.0


From b8ca356143ce9df51227cb9febccddb96cf6c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 26/86] fix: the size of the keystore provider id is not
 checked

---
 lib/keystore_load_from_file.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 8f56160..99975bb 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -7,6 +7,7 @@
  *
  */
 
+#include <string.h>
 #include <bpak/bpak.h>
 #include <bpak/pkg.h>
 #include <bpak/keystore.h>
@@ -27,7 +28,7 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
     struct bpak_part_header *key_part = NULL;
     struct bpak_meta_header *meta = NULL;
     size_t key_length;
-    bpak_id_t *keystore_provider_id = NULL;
+    bpak_id_t keystore_provider_id = 0;
 
     rc = bpak_pkg_open(&pkg, filename, "rb");
 
@@ -47,9 +48,16 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
     if (rc != BPAK_OK)
         goto err_close_pkg_out;
 
-    keystore_provider_id = bpak_get_meta_ptr(&pkg.header, meta, bpak_id_t);
+    if (meta->size < sizeof(keystore_provider_id)) {
+        rc = -BPAK_MISSING_META_DATA;
+        goto err_close_pkg_out;
+    }
+
+    memcpy(&keystore_provider_id,
+           bpak_get_meta_ptr(&pkg.header, meta, uint8_t),
+           sizeof(keystore_provider_id));
 
-    if (*keystore_provider_id != keystore_id) {
+    if (keystore_provider_id != keystore_id) {
         rc = -BPAK_KEYSTORE_ID_MISMATCH;
         goto err_close_pkg_out;
     }
-- 
2.43.0


From 736c19838ba697813b672c5843fb5064fd40114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 27/86] fix: compare crashes on metadata missing in the second
 file

---
 src/compare.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index b550cd3..da536f9 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -154,12 +154,10 @@ int action_compare(int argc, char **argv)
         if (rc != BPAK_OK)
             removed = true;
 
-        data2 = bpak_get_meta_ptr(h2p, meta, char);
+        if (!removed) {
+            data2 = bpak_get_meta_ptr(h2p, meta, char);
 
-        if (!data1 || !data2) {
-            removed = true;
-        } else if (rc == BPAK_OK) {
-            if (memcmp(data1, data2, m->size) != 0)
+            if (m->size != meta->size || memcmp(data1, data2, m->size) != 0)
                 change = true;
         }
 
-- 
2.43.0


From 0339eb31f9700d7b5755ee0d55d3341096283c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 28/86] fix: compare marks parts that only exist in the second
 file as removed

---
 src/compare.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compare.c b/src/compare.c
index da536f9..4a27f7c 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -316,7 +316,7 @@ int action_compare(int argc, char **argv)
 
             if (rc != BPAK_OK) {
                 printf(RED_YL);
-                printf("-");
+                printf("+");
 
                 if (p->flags & BPAK_FLAG_EXCLUDE_FROM_HASH)
                     flags_str[0] = 'h';
-- 
2.43.0


From 20faacd64b071217a9f3ac6b59868749d9b498e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 29/86] fix: compare fails on parts of different size and
 reports moved parts as changed

---
 src/compare.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index 4a27f7c..7184221 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -227,8 +227,10 @@ int action_compare(int argc, char **argv)
             if (rc != BPAK_OK) {
                 removed = true;
             } else {
-                /* Check if metadata is the same */
-                if (memcmp(p2, p, sizeof(*p)) != 0)
+                /* Check if metadata is the same, regardless of location */
+                if (p2->size != p->size ||
+                    p2->transport_size != p->transport_size ||
+                    p2->pad_bytes != p->pad_bytes || p2->flags != p->flags)
                     change = true;
 
                 /* Compare the data */
@@ -250,6 +252,12 @@ int action_compare(int argc, char **argv)
 
                 size_t data_to_compare = bpak_part_size(p);
 
+                /* Data of different length is never equal */
+                if (data_to_compare != bpak_part_size(p2)) {
+                    change = true;
+                    data_to_compare = 0;
+                }
+
                 while (data_to_compare) {
                     size_t chunk = (data_to_compare > sizeof(chunk1))
                                        ? sizeof(chunk1)
-- 
2.43.0


From 787d4b764e69a8f730618bdd9bbf085da8ec5510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 30/86] fix: compare fails when files have different parts or
 metadata

---
 src/compare.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index 7184221..61708d6 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -239,7 +239,7 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 rc = fseek(fp2, bpak_part_offset(h2p, p2), SEEK_SET);
@@ -247,7 +247,7 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 size_t data_to_compare = bpak_part_size(p);
@@ -353,6 +353,9 @@ int action_compare(int argc, char **argv)
         }
     }
 
+    /* Objects missing in one of the files are not errors */
+    rc = BPAK_OK;
+
 err_close_fp2_out:
     fclose(fp2);
 err_close_fp1_out:
-- 
2.43.0


From bf5eadb62847650b226156db868ca74aea64e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 31/86] fix: compare can not print 32 byte metadata

---
 src/compare.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compare.c b/src/compare.c
index 61708d6..f0a1fab 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -120,7 +120,7 @@ int action_compare(int argc, char **argv)
     printf("-   : Exists in file 1 but not in file 2\n");
     printf("*   : Exists in both but data differs\n\n");
 
-    char string_output[64];
+    char string_output[128];
     struct bpak_header *h1p = &h1;
     struct bpak_header *h2p = &h2;
     struct bpak_meta_header *meta = NULL;
-- 
2.43.0


From ca2fa0912ad17f7015a07a11057bb69ec12bcd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 32/86] fix: files shorter than a header are overwritten with
 an empty archive

---
 lib/pkg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index db2f017..c827981 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -46,6 +46,12 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
+    /* A file that is too short to hold a header is not an archive */
+    if (read_bytes != 0 && read_bytes != sizeof(pkg->header)) {
+        rc = -BPAK_READ_ERROR;
+        goto err_close_io;
+    }
+
     /* Initialize and write BPAK header when new files are created */
     if (read_bytes != sizeof(pkg->header)) {
         rc = bpak_init_header(&pkg->header);
-- 
2.43.0


From 19ef59a66c8034bfc5ed06d786bc5a5a9d8d9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 33/86] fix: closing a package that failed to open closes its
 file twice

---
 lib/pkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index c827981..aefca23 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -92,6 +92,7 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
 err_close_io:
     fclose(pkg->fp);
+    pkg->fp = NULL;
     return rc;
 }
 
-- 
2.43.0


From 268d594901b1cf2c77c8eaf7a998efcd4516f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 34/86] fix: refuse a raw signature that does not fit the
 signature field

---
 lib/pkg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index aefca23..d8392d2 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -200,6 +200,9 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
                                              const uint8_t *signature,
                                              size_t size)
 {
+    if (size > sizeof(pkg->header.signature))
+        return -BPAK_SIZE_ERROR;
+
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
-- 
2.43.0


From 7a299748365d1be5b9d6a49bce8d5fd55346bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 35/86] fix: refuse metadata files that do not fit instead of
 truncating them

---
 src/add.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/add.c b/src/add.c
index f920938..8ead428 100644
--- a/src/add.c
+++ b/src/add.c
@@ -28,7 +28,7 @@ int action_add(int argc, char **argv)
     int opt;
     int long_index = 0;
     uint32_t flags = 0;
-    char metadata_input[BPAK_METADATA_BYTES] = { 0 };
+    char metadata_input[BPAK_METADATA_BYTES + 1] = { 0 };
     size_t metadata_input_length = 0;
     const char *filename = NULL;
     const char *part_name = NULL;
@@ -166,6 +166,12 @@ int action_add(int argc, char **argv)
                 rc = -BPAK_FAILED;
                 goto err_close_pkg_out;
             }
+
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
+                fprintf(stderr, "Error: '%s' is too large\n", from_file);
+                rc = -BPAK_NO_SPACE_LEFT;
+                goto err_close_pkg_out;
+            }
         }
 
         if (encoder) {
-- 
2.43.0


From 0e8bd0ac8b5591907d6e5854e4c6ccf342dca09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 36/86] fix: refuse integer metadata values with trailing
 garbage

---
 src/add.c | 1 +
 src/set.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/add.c b/src/add.c
index 8ead428..e84dee9 100644
--- a/src/add.c
+++ b/src/add.c
@@ -210,6 +210,7 @@ int action_add(int argc, char **argv)
                 uint64_t value = strtol(metadata_input, &endptr, 0);
 
                 if (endptr == metadata_input ||
+                    endptr[strspn(endptr, " \t\r\n")] != '\0' ||
                     errno != 0) {
                     rc = -BPAK_FAILED;
                     fprintf(stderr, "Error: Could not parse input as a number");
diff --git a/src/set.c b/src/set.c
index b6adc80..a64984a 100644
--- a/src/set.c
+++ b/src/set.c
@@ -209,6 +209,7 @@ int action_set(int argc, char **argv)
             uint64_t value = strtol(from_string, &endptr, 0);
 
             if (endptr == from_string ||
+                endptr[strspn(endptr, " \t\r\n")] != '\0' ||
                 errno != 0) {
                 rc = -BPAK_FAILED;
                 fprintf(stderr, "Error: Could not parse input as a number");
-- 
2.43.0


From 8dddc6e8f59726597eb62954f3fff5f728ccf216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 37/86] fix: do not rewrite the header when set is given an
 unknown encoder

---
 src/set.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/set.c b/src/set.c
index a64984a..1e1fdcc 100644
--- a/src/set.c
+++ b/src/set.c
@@ -228,6 +228,7 @@ int action_set(int argc, char **argv)
         } else {
             rc = -BPAK_FAILED;
             fprintf(stderr, "Error: Unknown encoder\n");
+            goto err_close_fp_out;
         }
     } else if (key_id_flag || keystore_id_flag) {
 
-- 
2.43.0


From dc41a335b02ebbdf9f94e4d45cc71ab07d6a889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 38/86] fix: refuse an unreadable or empty signature file

---
 src/sign.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sign.c b/src/sign.c
index e09c8c9..bad5c6d 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -95,6 +95,13 @@ int action_sign(int argc, char **argv)
         size = fread(sig, 1, sizeof(sig), sig_fp);
 
         fclose(sig_fp);
+
+        if (size == 0) {
+            fprintf(stderr, "Error: Could not read '%s'\n", signature_file);
+            rc = -BPAK_READ_ERROR;
+            goto err_out;
+        }
+
         if (bpak_get_verbosity()) {
             printf("Loaded signature %zu bytes\n", size);
         }
-- 
2.43.0


From 5331ff4cc280ce55ba0461b18efd965ff3b4d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 39/86] fix: refuse elliptic curve keys on unsupported curves
 of the same length

---
 lib/mbedtls_wrapper.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 2300da6..984ef59 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -160,6 +160,25 @@ static int hash_kind(int bpak_hash_kind)
     return hash_kind;
 }
 
+/* Key length of the supported NIST curves, zero for any other curve */
+static size_t ec_key_bits(const mbedtls_pk_context *ctx)
+{
+#if MBEDTLS_VERSION_MAJOR >= 3
+    switch (mbedtls_pk_ec(*ctx)->MBEDTLS_PRIVATE(grp).id) {
+#else
+    switch (mbedtls_pk_ec(*ctx)->grp.id) {
+#endif
+    case MBEDTLS_ECP_DP_SECP256R1:
+        return 256;
+    case MBEDTLS_ECP_DP_SECP384R1:
+        return 384;
+    case MBEDTLS_ECP_DP_SECP521R1:
+        return 521;
+    default:
+        return 0;
+    }
+}
+
 int bpak_mbed_verify(const uint8_t *signature, size_t signature_length,
                      const uint8_t *hash, size_t hash_length,
                      enum bpak_hash_kind kind, struct bpak_key *key,
@@ -292,7 +311,7 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-        switch (mbedtls_pk_get_bitlen(&ctx)) {
+        switch (ec_key_bits(&ctx)) {
         case 256:
             key->kind = BPAK_KEY_PUB_PRIME256v1;
             break;
@@ -384,7 +403,7 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-        switch (mbedtls_pk_get_bitlen(&ctx)) {
+        switch (ec_key_bits(&ctx)) {
         case 256:
             key->kind = BPAK_KEY_PRI_PRIME256v1;
             break;
@@ -448,7 +467,7 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
     }
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
-        switch (mbedtls_pk_get_bitlen(&ctx)) {
+        switch (ec_key_bits(&ctx)) {
         case 256:
             kind = BPAK_KEY_PUB_PRIME256v1;
             break;
-- 
2.43.0


From 065995c2c4cc83240a7f602ac62319be5c927cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 40/86] fix: open archives read only for verify, extract,
 transport encode and decode

---
 src/extract.c   | 2 +-
 src/sign.c      | 2 +-
 src/transport.c | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 12923f8..c85ba91 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -95,7 +95,7 @@ int action_extract(int argc, char **argv)
 
     struct bpak_package pkg;
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
diff --git a/src/sign.c b/src/sign.c
index bad5c6d..e1a3a3a 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -177,7 +177,7 @@ int action_verify(int argc, char **argv)
         return -1;
     }
 
-    rc = bpak_pkg_open(&pkg, filename, "r+");
+    rc = bpak_pkg_open(&pkg, filename, "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package\n");
diff --git a/src/transport.c b/src/transport.c
index bf309ce..5db9f0a 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -115,7 +115,7 @@ int action_transport(int argc, char **argv)
     struct bpak_package output;
     struct bpak_package origin;
 
-    rc = bpak_pkg_open(&input, filename, "rb+");
+    rc = bpak_pkg_open(&input, filename, add_flag ? "rb+" : "rb");
 
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: Could not open package %s\n", filename);
@@ -123,7 +123,7 @@ int action_transport(int argc, char **argv)
     }
 
     if (origin_file) {
-        rc = bpak_pkg_open(&origin, origin_file, "rb+");
+        rc = bpak_pkg_open(&origin, origin_file, "rb");
 
         if (rc != BPAK_OK) {
             fprintf(stderr, "Error: Could not open package %s\n", origin_file);
-- 
2.43.0


From 41588d5ad75b4364c83387ce1b94c31fc051ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:55 +0000
Subject: [PATCH 41/86] fix: a failed sign operation leaves the header in
 memory as it was

---
 lib/pkg_sign.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/pkg_sign.c b/lib/pkg_sign.c
index 9cd2002..8f426c9 100644
--- a/lib/pkg_sign.c
+++ b/lib/pkg_sign.c
@@ -24,11 +24,7 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
     struct bpak_key *sign_key = NULL;
     uint8_t hash_output[BPAK_HASH_MAX_LENGTH];
     size_t hash_size = sizeof(hash_output);
-
-    rc = bpak_pkg_update_hash(pkg, (char *)hash_output, &hash_size);
-
-    if (rc != BPAK_OK)
-        return rc;
+    struct bpak_header saved_header = pkg->header;
 
     rc = bpak_crypto_load_private_key(key_filename, &sign_key);
 
@@ -36,6 +32,11 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
         return rc;
     }
 
+    rc = bpak_pkg_update_hash(pkg, (char *)hash_output, &hash_size);
+
+    if (rc != BPAK_OK)
+        goto err_free_key_out;
+
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
 
     size_t signature_length = sizeof(pkg->header.signature);
@@ -58,6 +59,8 @@ BPAK_EXPORT int bpak_pkg_sign(struct bpak_package *pkg,
         goto err_free_key_out;
 
 err_free_key_out:
+    if (rc != BPAK_OK)
+        memcpy(&pkg->header, &saved_header, sizeof(saved_header));
     bpak_free(sign_key);
     return rc;
 }
-- 
2.43.0


From d11bdaadada0af4c50218fb300a025e9b61f1b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 42/86] fix: set applies the key and keystore id also when
 metadata is set

---
 src/set.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/set.c b/src/set.c
index 1e1fdcc..dd46ae8 100644
--- a/src/set.c
+++ b/src/set.c
@@ -230,7 +230,9 @@ int action_set(int argc, char **argv)
             fprintf(stderr, "Error: Unknown encoder\n");
             goto err_close_fp_out;
         }
-    } else if (key_id_flag || keystore_id_flag) {
+    }
+
+    if (key_id_flag || keystore_id_flag) {
 
         if (key_id_flag) {
             h->key_id = key_id;
@@ -247,9 +249,6 @@ int action_set(int argc, char **argv)
                 printf("Setting keystore-id to  0x%08x\n", keystore_id);
             }
         }
-    } else {
-        rc = -BPAK_FAILED;
-        fprintf(stderr, "Error: Don't know what to do\n");
     }
 
     if (fseek(fp, 0, SEEK_SET) != 0) {
-- 
2.43.0


From c3a6aea80d9604646e814b8980ed3085a7eab87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 43/86] fix: generate keystore reads keys where the header
 places them

---
 src/generate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index 44da58f..6c4d174 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -184,7 +184,7 @@ int action_generate(int argc, char **argv)
             printf("    .id = 0x%x,\n", p->id);
             printf("    .size = %"PRIu64",\n", p->size);
 
-            if (fseek(fp, p->offset, SEEK_SET) != 0) {
+            if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) != 0) {
                 rc = -BPAK_SEEK_ERROR;
                 goto err_free_keystore_name;
             }
-- 
2.43.0


From 915e7e7c5d94f3abdbb6383741817420571a9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 44/86] fix: generate keystore emits the size of the key data
 it writes

---
 src/generate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index 6c4d174..c694bbf 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -182,7 +182,6 @@ int action_generate(int argc, char **argv)
 
             printf("{\n");
             printf("    .id = 0x%x,\n", p->id);
-            printf("    .size = %"PRIu64",\n", p->size);
 
             if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) != 0) {
                 rc = -BPAK_SEEK_ERROR;
@@ -212,6 +211,8 @@ int action_generate(int argc, char **argv)
                 goto err_free_keystore_name;
             }
 
+            printf("    .size = %u,\n", key->size);
+
             switch (key->kind) {
             case BPAK_KEY_PUB_PRIME256v1:
                 printf("    .kind = BPAK_KEY_PUB_PRIME256v1,\n");
-- 
2.43.0


From 4ab952540b2c67a617732c6f760118980ebdba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 45/86] fix: generate keystore checks the size of the provider
 id

---
 src/generate.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index c694bbf..3966e6f 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -136,7 +136,7 @@ int action_generate(int argc, char **argv)
         package_id = bpak_get_meta_ptr(h, meta, unsigned char);
         (void)package_id;
 
-        uint32_t *keystore_provider_id = NULL;
+        uint32_t keystore_provider_id = 0;
 
         rc = bpak_get_meta(h,
                            bpak_id("keystore-provider-id"),
@@ -149,7 +149,15 @@ int action_generate(int argc, char **argv)
             goto err_free_io_out;
         }
 
-        keystore_provider_id = bpak_get_meta_ptr(h, meta, uint32_t);
+        if (meta->size < sizeof(keystore_provider_id)) {
+            fprintf(stderr, "Error: Invalid keystore-provider-id meta\n");
+            rc = -BPAK_MISSING_META_DATA;
+            goto err_free_io_out;
+        }
+
+        memcpy(&keystore_provider_id,
+               bpak_get_meta_ptr(h, meta, uint8_t),
+               sizeof(keystore_provider_id));
 
         int key_index = 0;
         unsigned char key_buffer[4096];
@@ -254,7 +262,7 @@ int action_generate(int argc, char **argv)
                keystore_name_copy,
                decorate_keystore ? keystore_header_decorator : "");
         printf("{\n");
-        printf("    .id = 0x%x,\n", *keystore_provider_id);
+        printf("    .id = 0x%x,\n", keystore_provider_id);
         printf("    .no_of_keys = %i,\n", key_index);
         printf("    .verified = true,\n");
         printf("    .keys =\n");
-- 
2.43.0


From bf557f761d1a7aaea83dfe15edc137596bdfddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 46/86] fix: an archive that can not be read is not treated as
 an empty file

---
 lib/pkg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index d8392d2..845fd2b 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -46,6 +46,12 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
+    /* A file that can not be read is not an empty file */
+    if (read_bytes == 0 && mode[0] != 'w' && ferror(pkg->fp)) {
+        rc = -BPAK_READ_ERROR;
+        goto err_close_io;
+    }
+
     /* A file that is too short to hold a header is not an archive */
     if (read_bytes != 0 && read_bytes != sizeof(pkg->header)) {
         rc = -BPAK_READ_ERROR;
-- 
2.43.0


From 8ce3d5312090a999ab657af98288523d4b7856f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 47/86] fix: a failure to write buffered data when a package is
 closed is reported

---
 lib/pkg.c       |  8 ++++++--
 src/add.c       |  6 ++++--
 src/create.c    |  6 ++++--
 src/delete.c    |  5 +++--
 src/sign.c      |  6 ++++--
 src/transport.c | 14 +++++++++++---
 6 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 845fd2b..e61b25e 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -104,11 +104,15 @@ err_close_io:
 
 BPAK_EXPORT int bpak_pkg_close(struct bpak_package *pkg)
 {
+    int rc = BPAK_OK;
+
     if (pkg->fp != NULL) {
-        fclose(pkg->fp);
+        /* Buffered data may be written here */
+        if (fclose(pkg->fp) != 0)
+            rc = -BPAK_WRITE_ERROR;
         pkg->fp = NULL;
     }
-    return BPAK_OK;
+    return rc;
 }
 
 static ssize_t pkg_read_payload(off_t offset, uint8_t *buf, size_t length,
diff --git a/src/add.c b/src/add.c
index e84dee9..2cd5ed4 100644
--- a/src/add.c
+++ b/src/add.c
@@ -38,6 +38,7 @@ int action_add(int argc, char **argv)
     const char *part_ref = NULL;
     const char *encoder = NULL;
     int rc = 0;
+    int close_rc;
 
     struct option long_options[] = {
         { "help", no_argument, 0, 'h' },
@@ -309,6 +310,7 @@ int action_add(int argc, char **argv)
     }
 
 err_close_pkg_out:
-    bpak_pkg_close(&pkg);
-    return rc;
+    close_rc = bpak_pkg_close(&pkg);
+
+    return (rc != BPAK_OK) ? rc : close_rc;
 }
diff --git a/src/create.c b/src/create.c
index 32ead64..850f270 100644
--- a/src/create.c
+++ b/src/create.c
@@ -20,6 +20,7 @@ int action_create(int argc, char **argv)
     uint8_t hash_kind = BPAK_HASH_INVALID;
     uint8_t signature_kind = BPAK_SIGN_INVALID;
     int rc = 0;
+    int close_rc;
 
     struct option long_options[] = {
         { "help", no_argument, 0, 'h' },
@@ -148,6 +149,7 @@ int action_create(int argc, char **argv)
     }
 
 err_close_pkg_out:
-    bpak_pkg_close(&pkg);
-    return rc;
+    close_rc = bpak_pkg_close(&pkg);
+
+    return (rc != BPAK_OK) ? rc : close_rc;
 }
diff --git a/src/delete.c b/src/delete.c
index 88d917e..7ed62f8 100644
--- a/src/delete.c
+++ b/src/delete.c
@@ -100,7 +100,8 @@ int action_delete(int argc, char **argv)
         rc = bpak_pkg_delete_part(&pkg, part_id, !keep_metadata);
     }
 
-    bpak_pkg_close(&pkg);
-    return rc;
+    int close_rc = bpak_pkg_close(&pkg);
+
+    return (rc != BPAK_OK) ? rc : close_rc;
 
 }
diff --git a/src/sign.c b/src/sign.c
index e1a3a3a..9bbf7de 100644
--- a/src/sign.c
+++ b/src/sign.c
@@ -30,6 +30,7 @@ int action_sign(int argc, char **argv)
     size_t size = sizeof(sig);
     struct bpak_package pkg;
     int rc = 0;
+    int close_rc;
 
     struct option long_options[] = {
         { "help", no_argument, 0, 'h' },
@@ -118,8 +119,9 @@ int action_sign(int argc, char **argv)
     }
 
 err_out:
-    bpak_pkg_close(&pkg);
-    return rc;
+    close_rc = bpak_pkg_close(&pkg);
+
+    return (rc != BPAK_OK) ? rc : close_rc;
 }
 
 int action_verify(int argc, char **argv)
diff --git a/src/transport.c b/src/transport.c
index 5db9f0a..cc0fe8a 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -33,6 +33,7 @@ int action_transport(int argc, char **argv)
     bool encode_flag = false;
     bool decode_flag = false;
     int rc = 0;
+    int close_rc;
     uint32_t part_ref = 0;
 
     struct option long_options[] = {
@@ -179,11 +180,18 @@ int action_transport(int argc, char **argv)
         fprintf(stderr, "Error: Transport encoding/decoding failed\n");
     }
 
-    if (encode_flag || decode_flag)
-        bpak_pkg_close(&output);
+    if (encode_flag || decode_flag) {
+        close_rc = bpak_pkg_close(&output);
+
+        if (rc == BPAK_OK)
+            rc = close_rc;
+    }
 
 err_out:
-    bpak_pkg_close(&input);
+    close_rc = bpak_pkg_close(&input);
+
+    if (rc == BPAK_OK)
+        rc = close_rc;
 
     if (origin_file) {
         bpak_pkg_close(&origin);
-- 
2.43.0


From 399c32f56eb02f895cc8a88bc4f362039d5f5f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 48/86] fix: set reports a failure to write the header

---
 src/set.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/set.c b/src/set.c
index dd46ae8..fee6203 100644
--- a/src/set.c
+++ b/src/set.c
@@ -262,7 +262,8 @@ int action_set(int argc, char **argv)
     }
 
 err_close_fp_out:
-    fclose(fp);
+    if (fclose(fp) != 0 && rc == BPAK_OK)
+        rc = -BPAK_WRITE_ERROR;
 err_free_header_out:
     free(h);
     return rc;
-- 
2.43.0


From f388b3de468e96e3583ca481b883b54a8c09c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 49/86] fix: extract reports a failure to write the output file

---
 lib/pkg.c     | 3 ++-
 src/extract.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index e61b25e..b184572 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -493,7 +493,8 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if (fclose(fp) != 0 && rc == BPAK_OK)
+            rc = -BPAK_WRITE_ERROR;
     }
 
     return rc;
diff --git a/src/extract.c b/src/extract.c
index c85ba91..83b064e 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -149,7 +149,8 @@ int action_extract(int argc, char **argv)
 
 err_close_fp_out:
     if ((fp != stdout) && (fp != NULL)) {
-        fclose(fp);
+        if (fclose(fp) != 0 && rc == BPAK_OK)
+            rc = -BPAK_WRITE_ERROR;
     }
 err_close_pkg_out:
     bpak_pkg_close(&pkg);
-- 
2.43.0


From 7b1d2468aa154c031ebd4834c9ff8023171dadae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 50/86] fix: output that can not be written to standard output
 is reported

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index e2ebaab..d749de1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -124,6 +124,11 @@ int main(int argc, char **argv)
         return -1;
     }
 
+    /* Output that could not be written is an error */
+    if ((fflush(stdout) != 0 || ferror(stdout)) && rc == BPAK_OK) {
+        rc = -BPAK_WRITE_ERROR;
+    }
+
     if (rc != BPAK_OK) {
         fprintf(stderr, "Error: %s (%i)\n", bpak_error_string(rc), rc);
     }
-- 
2.43.0


From e067b96609c138f3ce9b33d6a1e469d7b3cc018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 51/86] fix: a hash tree is only added for completely read
 input

---
 lib/pkg_create.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index e98d052..93b5fcb 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -135,16 +135,25 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
         goto err_free_buf_out;
     }
 
-    while (true) {
-        chunk_sz = fread(block_buf, 1, sizeof(block_buf), fp);
+    uint64_t bytes_to_hash = statbuf.st_size;
 
-        if (chunk_sz == 0)
-            break;
+    while (bytes_to_hash) {
+        chunk_sz = fread(block_buf,
+                         1,
+                         BPAK_MIN(bytes_to_hash, sizeof(block_buf)),
+                         fp);
+
+        if (chunk_sz == 0) {
+            rc = -BPAK_READ_ERROR;
+            goto err_close_fp_out;
+        }
 
         rc = bpak_merkle_write_chunk(&ctx, block_buf, chunk_sz);
 
         if (rc != BPAK_OK)
             goto err_close_fp_out;
+
+        bytes_to_hash -= chunk_sz;
     }
 
     bpak_merkle_hash_t hash;
-- 
2.43.0


From 3988c6aba5c6ad9dc1daf920293e4436265dd371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 52/86] fix: delete reports a failure to write the header

---
 lib/pkg.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index b184572..9c06ecf 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -617,7 +617,11 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         return rc;
     }
 
-    fflush(pkg->fp);
+    if (fflush(pkg->fp) != 0) {
+        bpak_printf(0, "%s: Error: Couldn't write file: %s\n",
+                    __func__, strerror(errno));
+        return -BPAK_WRITE_ERROR;
+    }
 
     if (ftruncate(fileno(pkg->fp), data_end - p_size) != 0) {
         bpak_printf(0, "%s: Error: Couldn't truncate file: %s\n",
@@ -659,7 +663,11 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
         return rc;
     }
 
-    fflush(pkg->fp);
+    if (fflush(pkg->fp) != 0) {
+        bpak_printf(0, "%s: Error: Couldn't write file: %s\n",
+                    __func__, strerror(errno));
+        return -BPAK_WRITE_ERROR;
+    }
 
     if (ftruncate(fileno(pkg->fp), sizeof(struct bpak_header)) != 0) {
         bpak_printf(0, "%s: Error: Couldn't truncate file: %s\n",
-- 
2.43.0


From 8b552c29b2f8a3b0f27ba40ac4c103a474ab4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 53/86] fix: release the key context and check the allocation
 when loading a public key

---
 lib/mbedtls_wrapper.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 984ef59..a00a9c3 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -308,6 +308,12 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     }
 
     struct bpak_key *key = bpak_calloc(sizeof(struct bpak_key) + len, 1);
+
+    if (key == NULL) {
+        rc = -BPAK_FAILED;
+        goto err_free_ctx;
+    }
+
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
@@ -339,6 +345,7 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 
     memcpy(key->data, &tmp[sizeof(tmp) - len], len);
     (*output) = key;
+    mbedtls_pk_free(&ctx);
     return BPAK_OK;
 
 err_free_key_out:
-- 
2.43.0


From dcd1641850bd844448df42747219e730a95d448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 54/86] fix: check the lzma encoder before use, release it on
 errors and use one allocator

---
 lib/bsdiff.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index aeb405e..f6ecc2c 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -348,7 +348,12 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *stream;
         stream = bpak_calloc(sizeof(lzma_stream), 1);
-        ctx->compressor_priv = stream;
+
+        if (stream == NULL)
+            return -BPAK_FAILED;
+
+        /* Everything the encoder allocates comes from the same allocator */
+        stream->allocator = &lzma_alloc;
 
         lzma_options_lzma opt_lzma2;
         if (lzma_lzma_preset(&opt_lzma2, LZMA_PRESET_DEFAULT)) {
@@ -364,13 +369,12 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
 
         lzma_ret ret = lzma_stream_encoder(stream, filters, LZMA_CHECK_CRC64);
 
-        if (ret != LZMA_OK)
+        if (ret != LZMA_OK) {
+            bpak_free(stream);
             return -BPAK_COMPRESSOR_ERROR;
+        }
 
-        if (stream == NULL)
-            return -BPAK_FAILED;
-
-        stream->allocator = &lzma_alloc;
+        ctx->compressor_priv = stream;
     } break;
 #endif
     default:
-- 
2.43.0


From 4527f9ba6a3f45524c04cb0991cb3116b4c24b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 55/86] fix: set the lzma decoder's allocator before it
 allocates

---
 lib/bspatch.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index c18ec1d..ae6743b 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -250,14 +250,15 @@ static int decompressor_init(struct bpak_bspatch_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *strm = &ctx->decompressor.lzma_stream;
 
+        /* Everything the decoder allocates comes from the same allocator */
+        strm->allocator = &lzma_alloc;
+
         lzma_ret ret = lzma_stream_decoder(strm, UINT64_MAX, LZMA_CONCATENATED);
 
         if (ret != LZMA_OK) {
             bpak_printf(0, "lzma init error (%u)\n", ret);
             return -BPAK_DECOMPRESSOR_ERROR;
         }
-
-        strm->allocator = &lzma_alloc;
     } break;
 #endif
     default:
-- 
2.43.0


From 2629140972fd016eab02503a91ea7952a4c6668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 56/86] fix: release the decoder of a transport decoding that
 fails or is abandoned

---
 lib/pkg.c              |  6 ++++--
 lib/transport_decode.c | 23 ++++++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 9c06ecf..237a68e 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -334,7 +334,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
     if (fseek(input->fp, sizeof(struct bpak_header), SEEK_SET) != 0) {
         bpak_printf(0, "%s: Error, could not seek input stream", __func__);
-        return -BPAK_SEEK_ERROR;
+        rc = -BPAK_SEEK_ERROR;
+        goto err_out;
     }
 
     bpak_foreach_part (patch_header, part) {
@@ -373,7 +374,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
             if (bytes_read != chunk_length) {
                 bpak_printf(0, "%s: bytes_read != chunk_length\n", __func__);
-                return -BPAK_READ_ERROR;
+                rc = -BPAK_READ_ERROR;
+                goto err_out;
             }
 
             rc = bpak_transport_decode_write_chunk(&decode_ctx,
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 8255ac1..f533edd 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -192,6 +192,23 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     return BPAK_OK;
 }
 
+/* Release the decoder of the part that is being processed, if any */
+static void decoder_free(struct bpak_transport_decode *ctx)
+{
+    switch (ctx->decoder_id) {
+    case BPAK_ID_BSPATCH:
+    case BPAK_ID_BSPATCH_NO_COMP:
+    case BPAK_ID_BSPATCH_LZMA:
+        bpak_bspatch_free(&ctx->decoders.bspatch);
+        break;
+    default:
+        break;
+    }
+
+    memset(&ctx->decoders, 0, sizeof(ctx->decoders));
+    ctx->decoder_id = 0;
+}
+
 BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
                                             struct bpak_part_header *part)
 {
@@ -209,8 +226,9 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
     if (bytes_written != sizeof(struct bpak_header))
         return -BPAK_WRITE_ERROR;
 
+    /* A previous part may not have been finished */
+    decoder_free(ctx);
     ctx->part = part;
-    ctx->decoder_id = 0;
 
     /* Check if there is any transport meta data for this part in the header */
     if (part->flags & BPAK_FLAG_TRANSPORT) {
@@ -377,6 +395,5 @@ BPAK_EXPORT int bpak_transport_decode_finish(struct bpak_transport_decode *ctx)
 
 BPAK_EXPORT void bpak_transport_decode_free(struct bpak_transport_decode *ctx)
 {
-    /* Nothing to implement so far */
-    (void)ctx;
+    decoder_free(ctx);
 }
-- 
2.43.0


From 054698b7e15725a8e6673e51723d580a96292e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 57/86] fix: check the tool's allocations in set and generate

---
 src/generate.c | 5 +++++
 src/set.c      | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index 3966e6f..e28ed11 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -171,6 +171,11 @@ int action_generate(int argc, char **argv)
 
         char *keystore_name_copy = strdup(keystore_name);
 
+        if (keystore_name_copy == NULL) {
+            rc = -BPAK_FAILED;
+            goto err_free_io_out;
+        }
+
         for (unsigned int i = 0; i < strlen(keystore_name); i++) {
             if (keystore_name[i] == '-')
                 keystore_name_copy[i] = '_';
diff --git a/src/set.c b/src/set.c
index fee6203..731b810 100644
--- a/src/set.c
+++ b/src/set.c
@@ -110,6 +110,9 @@ int action_set(int argc, char **argv)
     FILE *fp = NULL;
     struct bpak_header *h = malloc(sizeof(struct bpak_header));
 
+    if (h == NULL)
+        return -BPAK_FAILED;
+
     fp = fopen(filename, "r+");
 
     if (fp == NULL) {
@@ -159,6 +162,12 @@ int action_set(int argc, char **argv)
                 }
 
                 struct bpak_header *tmp_header = malloc(sizeof(struct bpak_header));
+
+                if (tmp_header == NULL) {
+                    rc = -BPAK_FAILED;
+                    goto err_close_fp_out;
+                }
+
                 memcpy(tmp_header, h, sizeof(struct bpak_header));
 
                 struct bpak_meta_header *meta_tmp = NULL;
-- 
2.43.0


From c82d140237ee20b7a2fbe97c6ae24c8e6813dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:38 +0000
Subject: [PATCH 58/86] fix: report an unknown generator as an error

---
 src/generate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index e28ed11..6dd417b 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -287,6 +287,9 @@ err_free_io_out:
         fclose(fp);
 err_free_header_out:
         free(h);
+    } else {
+        fprintf(stderr, "Error: Unknown generator '%s'\n", generator);
+        rc = -BPAK_FAILED;
     }
 
     return rc;
-- 
2.43.0


From 30851804eca07580e92e85f51b1118ed5e4bb2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 59/86] fix: release every hash context of the hash tree
 exactly once

---
 lib/merkle.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index f59fe62..b7d77a1 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -261,26 +261,23 @@ BPAK_EXPORT int bpak_merkle_finish(struct bpak_merkle_context *ctx,
             if (rc != BPAK_OK)
                 goto err_free_hash_ctx_out;
 
+            bpak_hash_free(&ctx->running_hash);
+
             n_written = ctx->wr(ctx->offset + output_offset,
                                 ctx->buffer,
                                 sizeof(ctx->buffer),
                                 ctx->priv);
 
-            if (n_written < 0) {
-                rc = n_written;
-                goto err_free_hash_ctx_out;
-            }
-            if (n_written != sizeof(ctx->buffer)) {
-                rc = -BPAK_WRITE_ERROR;
-                goto err_free_hash_ctx_out;
-            }
+            if (n_written < 0)
+                return n_written;
+            if (n_written != sizeof(ctx->buffer))
+                return -BPAK_WRITE_ERROR;
 
             output_offset += n_written;
             input_offset += BPAK_MERKLE_BLOCK_SZ;
         }
     }
 
-    bpak_hash_free(&ctx->running_hash);
     /* Compute the root hash, which is the hash of the top level */
     bpak_printf(2, "Computing root hash\n");
     rc = bpak_hash_init(&ctx->running_hash, BPAK_HASH_SHA256);
-- 
2.43.0


From a09cc40cfc5820acf250004e45551eea399a02f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 60/86] fix: python: keep the log function alive and handle its
 exceptions

---
 python/python_wrapper.c | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 161b48e..695054d 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -22,7 +22,28 @@ int bpak_printf(int verbosity, const char *fmt, ...)
     va_end(args);
 
     if (log_func != Py_None) {
-        PyObject_CallFunction(log_func, "(is)", verbosity, log_buf);
+        PyObject *callback = log_func;
+
+        /* The callback might replace itself */
+        Py_INCREF(callback);
+
+        /* File names that end up in messages are not necessarily UTF-8 */
+        PyObject *message =
+            PyUnicode_DecodeUTF8(log_buf, strlen(log_buf), "replace");
+        PyObject *result = NULL;
+
+        if (message != NULL) {
+            result = PyObject_CallFunction(callback, "iO", verbosity, message);
+        }
+
+        /* The caller can't handle exceptions from the callback */
+        if (result == NULL) {
+            PyErr_WriteUnraisable(callback);
+        }
+
+        Py_XDECREF(result);
+        Py_XDECREF(message);
+        Py_DECREF(callback);
     }
 
     return BPAK_OK;
@@ -49,13 +70,27 @@ static PyObject *m_set_log_func(PyObject *module, PyObject *args,
 {
     int rc;
     static char *kwlist[] = {"log_func", NULL};
+    PyObject *new_log_func = NULL;
+    PyObject *old_log_func = log_func;
     (void)module;
 
-    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &log_func);
+    rc = PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &new_log_func);
     if (!rc) {
         return NULL;
     }
 
+    if (new_log_func != Py_None && !PyCallable_Check(new_log_func)) {
+        PyErr_SetString(PyExc_TypeError, "log_func must be callable or None");
+        return NULL;
+    }
+
+    Py_INCREF(new_log_func);
+    log_func = new_log_func;
+
+    if (old_log_func != Py_None) {
+        Py_DECREF(old_log_func);
+    }
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From d06b4349040c624661b1bc9007b217780ecbbffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 61/86] fix: python: release file names and reinitialise
 packages properly

---
 python/package.c | 62 ++++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 42 deletions(-)

diff --git a/python/package.c b/python/package.c
index c30fbcd..43b5b98 100644
--- a/python/package.c
+++ b/python/package.c
@@ -58,25 +58,24 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
                                      kwds,
                                      "O&s:bpak.Package.__init__",
                                      kwlist,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &filename,
                                      &mode);
     if (!rc) {
         return -1;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
-    if (!filename_ascii) {
-        return -1;
-    }
+    /* __init__ may be called more than once */
+    bpak_pkg_close(&self->pkg);
 
-    rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename_ascii), mode);
+    rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename), mode);
 
-    Py_DECREF(filename_ascii);
+    Py_DECREF(filename);
 
     if (rc != BPAK_OK) {
+        memset(&self->pkg, 0, sizeof(self->pkg));
         PyErr_SetString(BPAKPackageError, "could not open package");
-        return rc;
+        return -1;
     }
 
     return 0;
@@ -104,21 +103,16 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
                                      kwds,
                                      "O&:verify",
                                      kwlist,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &verify_key_filename);
 
     if (!rc) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(verify_key_filename);
-    if (!filename_ascii) {
-        return NULL;
-    }
-
-    rc = bpak_crypto_load_public_key(PyBytes_AsString(filename_ascii), &key);
+    rc = bpak_crypto_load_public_key(PyBytes_AsString(verify_key_filename), &key);
 
-    Py_DECREF(filename_ascii);
+    Py_DECREF(verify_key_filename);
 
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "could not load key: %s",
@@ -147,21 +141,16 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
                                      kwds,
                                      "O&:verify",
                                      kwlist,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &sign_key_filename);
 
     if (!rc) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(sign_key_filename);
-    if (!filename_ascii) {
-        return NULL;
-    }
-
-    rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(filename_ascii));
+    rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(sign_key_filename));
 
-    Py_DECREF(filename_ascii);
+    Py_DECREF(sign_key_filename);
 
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "signing failed: %s",
@@ -187,7 +176,7 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
                                      "sO&|p:add_file",
                                      kwlist,
                                      &part_name,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &filename,
                                      &with_merkle_tree);
 
@@ -195,20 +184,15 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
-    if (!filename_ascii) {
-        return NULL;
-    }
-
     if (with_merkle_tree) {
         rc = bpak_pkg_add_file_with_merkle_tree(&package->pkg,
-                PyBytes_AsString(filename_ascii), part_name, 0);
+                PyBytes_AsString(filename), part_name, 0);
     } else {
-        rc = bpak_pkg_add_file(&package->pkg, PyBytes_AsString(filename_ascii),
+        rc = bpak_pkg_add_file(&package->pkg, PyBytes_AsString(filename),
                 part_name, 0);
     }
 
-    Py_DECREF(filename_ascii);
+    Py_DECREF(filename);
 
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "Failed to add file to package: %s",
@@ -239,22 +223,16 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
                                      "sO&:add_key",
                                      kwlist,
                                      &part_name,
-                                     &PyUnicode_FSDecoder,
+                                     &PyUnicode_FSConverter,
                                      &filename);
 
     if (!rc) {
         return NULL;
     }
 
-    PyObject *filename_ascii = PyUnicode_AsASCIIString(filename);
-    if (!filename_ascii) {
-        return NULL;
-    }
-
-
-    rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename_ascii), part_name, 0);
+    rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename), part_name, 0);
 
-    Py_DECREF(filename_ascii);
+    Py_DECREF(filename);
 
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "failed to add key to package: %s",
-- 
2.43.0


From 5c64cfa748084039eefd7c9f55756df34e2bc97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 62/86] fix: python: raise an exception when a closed package
 is used

---
 python/meta.c           | 16 ++++++++++++
 python/package.c        | 58 +++++++++++++++++++++++++++++++++++++++++
 python/part.c           | 12 +++++++++
 python/python_wrapper.c | 10 +++++++
 python/python_wrapper.h |  2 ++
 5 files changed, 98 insertions(+)

diff --git a/python/meta.c b/python/meta.c
index 21f34cd..8006e9b 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -65,6 +65,10 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
+    if (!package_is_open(meta->package)) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -116,6 +120,10 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
 
+    if (!package_is_open(meta->package)) {
+        return -1;
+    }
+
     if (value != Py_None) {
         if (!PyLong_Check(value)) {
             PyErr_SetString(PyExc_TypeError, "type mismatch");
@@ -194,6 +202,10 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (!package_is_open(meta->package)) {
+        return -1;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
@@ -312,6 +324,10 @@ static PyObject *meta_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
     struct bpak_meta_header *m;
     int rc = 0;
 
+    if (!package_is_open(meta->package)) {
+        return NULL;
+    }
+
     rc = bpak_get_meta(h, meta->meta_id, meta->part_ref, &m);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get meta: %s",
diff --git a/python/package.c b/python/package.c
index 43b5b98..c95ce6c 100644
--- a/python/package.c
+++ b/python/package.c
@@ -26,6 +26,16 @@ int package_write_header(BPAKPackage *package, bool update_hash)
     return rc;
 }
 
+bool package_is_open(BPAKPackage *package)
+{
+    if (package->pkg.fp == NULL) {
+        PyErr_SetString(PyExc_ValueError, "package is not open");
+        return false;
+    }
+
+    return true;
+}
+
 static PyObject *package_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
     (void)args;
@@ -110,6 +120,11 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_is_open(self)) {
+        Py_DECREF(verify_key_filename);
+        return NULL;
+    }
+
     rc = bpak_crypto_load_public_key(PyBytes_AsString(verify_key_filename), &key);
 
     Py_DECREF(verify_key_filename);
@@ -148,6 +163,11 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    if (!package_is_open(package)) {
+        Py_DECREF(sign_key_filename);
+        return NULL;
+    }
+
     rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(sign_key_filename));
 
     Py_DECREF(sign_key_filename);
@@ -184,6 +204,11 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (!package_is_open(package)) {
+        Py_DECREF(filename);
+        return NULL;
+    }
+
     if (with_merkle_tree) {
         rc = bpak_pkg_add_file_with_merkle_tree(&package->pkg,
                 PyBytes_AsString(filename), part_name, 0);
@@ -230,6 +255,11 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    if (!package_is_open(package)) {
+        Py_DECREF(filename);
+        return NULL;
+    }
+
     rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename), part_name, 0);
 
     Py_DECREF(filename);
@@ -273,6 +303,10 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    if (!package_is_open(package)) {
+        return NULL;
+    }
+
     if (!data && size < 0) {
         return PyErr_Format(PyExc_TypeError, "must specify either initial data or size");
     }
@@ -430,6 +464,10 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
 
     size_t hash_size = sizeof(digest_data);
 
+    if (!package_is_open(package)) {
+        return NULL;
+    }
+
     if (bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size) != BPAK_OK)
         Py_RETURN_NONE;
 
@@ -453,6 +491,10 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -493,6 +535,10 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -533,6 +579,10 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -577,6 +627,10 @@ static int package_set_signature(PyObject *self, PyObject *value,
     Py_ssize_t signature_sz;
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
         bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
@@ -622,6 +676,10 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
+    if (!package_is_open(package)) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
diff --git a/python/part.c b/python/part.c
index 0a30d97..f86c9d2 100644
--- a/python/part.c
+++ b/python/part.c
@@ -64,6 +64,10 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
     struct bpak_header *h = bpak_pkg_header(&part->package->pkg);
     struct bpak_part_header *p;
 
+    if (!package_is_open(part->package)) {
+        return -1;
+    }
+
     if (!PyLong_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
@@ -160,6 +164,10 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
     PyObject *bytes;
     int rc = 0;
 
+    if (!package_is_open(part->package)) {
+        return NULL;
+    }
+
     rc = bpak_get_part(h, part->part_id, &p);
     if (rc != BPAK_OK) {
         return PyErr_Format(PyExc_KeyError, "failed to get partition: %s",
@@ -196,6 +204,10 @@ static PyObject *part_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
     BPAKPart *part = (BPAKPart *)self;
     int rc;
 
+    if (!package_is_open(part->package)) {
+        return NULL;
+    }
+
     rc = bpak_pkg_delete_part(&part->package->pkg, part->part_id, true);
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError, "failed to delete part: %s",
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 695054d..4dc42ea 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -118,6 +118,11 @@ static PyObject *m_transport_encode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_is_open(input) || !package_is_open(output) ||
+        (origin && !package_is_open(origin))) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_encode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
@@ -154,6 +159,11 @@ static PyObject *m_transport_decode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    if (!package_is_open(input) || !package_is_open(output) ||
+        (origin && !package_is_open(origin))) {
+        return NULL;
+    }
+
     rc = bpak_pkg_transport_decode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 641ac16..4cf87f7 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -29,6 +29,8 @@ extern PyTypeObject BPAKMetaType;
 
 extern PyObject *BPAKPackageError;
 
+/* Sets an exception and returns false if the package is closed */
+bool package_is_open(BPAKPackage *package);
 int package_write_header(BPAKPackage *package, bool update_hash);
 
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
-- 
2.43.0


From 4fc42218e7b646d1fbe38c0fd1b1086221ffcdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:18 +0000
Subject: [PATCH 63/86] fix: python: check the range of integers and refuse to
 delete attributes

---
 python/meta.c           | 33 +++++++----------------
 python/package.c        | 59 ++++++++++++++---------------------------
 python/part.c           | 14 ++--------
 python/python_wrapper.c | 42 +++++++++++++++++++++++++++++
 python/python_wrapper.h |  7 +++++
 5 files changed, 80 insertions(+), 75 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 8006e9b..67a3710 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -60,7 +60,7 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int meta_id;
+    uint32_t meta_id;
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
@@ -69,17 +69,7 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    meta_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-    if (((uint32_t)meta_id) != meta_id) {
-        PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+    if (wrapper_parse_uint(value, 32, &meta_id) != 0) {
         return -1;
     }
 
@@ -115,7 +105,7 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int part_ref = 0;
+    uint32_t part_ref = 0;
     BPAKMeta *meta = (BPAKMeta *)self;
     struct bpak_header *h = bpak_pkg_header(&meta->package->pkg);
     struct bpak_meta_header *m;
@@ -125,17 +115,7 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
     }
 
     if (value != Py_None) {
-        if (!PyLong_Check(value)) {
-            PyErr_SetString(PyExc_TypeError, "type mismatch");
-            return -1;
-        }
-
-        part_ref = PyLong_AsUnsignedLong(value);
-        if (PyErr_Occurred()) {
-            return -1;
-        }
-        if (((uint32_t)part_ref) != part_ref) {
-            PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+        if (wrapper_parse_uint(value, 32, &part_ref) != 0) {
             return -1;
         }
     }
@@ -214,6 +194,11 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
         return -1;
     }
 
+    if (value == NULL) {
+        PyErr_SetString(PyExc_AttributeError, "attribute can't be deleted");
+        return -1;
+    }
+
     /* Support setting either as raw bytes or as string */
     Py_ssize_t  new_size = 0;
     char *new_data = NULL;
diff --git a/python/package.c b/python/package.c
index c95ce6c..73470b7 100644
--- a/python/package.c
+++ b/python/package.c
@@ -292,9 +292,11 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
-                                     "I|IOn:add_meta",
+                                     "O&|O&On:add_meta",
                                      kwlist,
+                                     &wrapper_id_converter,
                                      &meta_id,
+                                     &wrapper_id_converter,
                                      &part_ref,
                                      &data,
                                      &size);
@@ -393,8 +395,9 @@ static PyObject *package_get_part(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
-                                     "I:get_part",
+                                     "O&:get_part",
                                      kwlist,
+                                     &wrapper_id_converter,
                                      &part_id);
 
     if (!rc) {
@@ -422,9 +425,11 @@ static PyObject *package_get_meta(PyObject *self, PyObject *args, PyObject *kwds
 
     rc = PyArg_ParseTupleAndKeywords(args,
                                      kwds,
-                                     "I|I:get_meta",
+                                     "O&|O&:get_meta",
                                      kwlist,
+                                     &wrapper_id_converter,
                                      &meta_id,
+                                     &wrapper_id_converter,
                                      &part_ref);
 
     if (!rc) {
@@ -487,7 +492,7 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc;
-    int hash_kind;
+    uint32_t hash_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -495,17 +500,11 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    hash_kind = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (wrapper_parse_uint(value, 8, &hash_kind) != 0) {
         return -1;
     }
 
-    h->hash_kind = (uint32_t)hash_kind;
+    h->hash_kind = hash_kind;
 
     rc = package_write_header(package, false);
 
@@ -531,7 +530,7 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc;
-    int key_id;
+    uint32_t key_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -539,17 +538,11 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    key_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (wrapper_parse_uint(value, 32, &key_id) != 0) {
         return -1;
     }
 
-    h->key_id = (uint32_t)key_id;
+    h->key_id = key_id;
 
     rc = package_write_header(package, false);
 
@@ -575,7 +568,7 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
 {
     (void)closure;
     int rc;
-    int keystore_id;
+    uint32_t keystore_id;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -583,17 +576,11 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    keystore_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (wrapper_parse_uint(value, 32, &keystore_id) != 0) {
         return -1;
     }
 
-    h->keystore_id = (uint32_t)keystore_id;
+    h->keystore_id = keystore_id;
 
     rc = package_write_header(package, false);
 
@@ -672,7 +659,7 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
 {
     (void)closure;
     int rc;
-    int signature_kind;
+    uint32_t signature_kind;
     BPAKPackage *package = (BPAKPackage *)self;
     struct bpak_header *h = bpak_pkg_header(&package->pkg);
 
@@ -680,17 +667,11 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    signature_kind = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
+    if (wrapper_parse_uint(value, 8, &signature_kind) != 0) {
         return -1;
     }
 
-    h->signature_kind = (uint32_t)signature_kind;
+    h->signature_kind = signature_kind;
 
     rc = package_write_header(package, false);
 
diff --git a/python/part.c b/python/part.c
index f86c9d2..74b49af 100644
--- a/python/part.c
+++ b/python/part.c
@@ -59,7 +59,7 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
 {
     (void)closure;
     int rc = 0;
-    unsigned int part_id;
+    uint32_t part_id;
     BPAKPart *part = (BPAKPart *)self;
     struct bpak_header *h = bpak_pkg_header(&part->package->pkg);
     struct bpak_part_header *p;
@@ -68,17 +68,7 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
-    if (!PyLong_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "type mismatch");
-	    return -1;
-    }
-
-    part_id = PyLong_AsUnsignedLong(value);
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-    if (((uint32_t)part_id) != part_id) {
-        PyErr_SetString(PyExc_OverflowError, "outside 32-bit range");
+    if (wrapper_parse_uint(value, 32, &part_id) != 0) {
         return -1;
     }
 
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 4dc42ea..d9649f6 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -49,6 +49,48 @@ int bpak_printf(int verbosity, const char *fmt, ...)
     return BPAK_OK;
 }
 
+int wrapper_parse_uint(PyObject *value, unsigned int bits, uint32_t *result)
+{
+    unsigned long long tmp;
+
+    if (value == NULL) {
+        PyErr_SetString(PyExc_AttributeError, "attribute can't be deleted");
+        return -1;
+    }
+
+    if (!PyLong_Check(value)) {
+        PyErr_SetString(PyExc_TypeError, "type mismatch");
+        return -1;
+    }
+
+    tmp = PyLong_AsUnsignedLongLong(value);
+    if (PyErr_Occurred()) {
+        return -1;
+    }
+
+    if (tmp >> bits) {
+        PyErr_Format(PyExc_OverflowError, "outside %u-bit range", bits);
+        return -1;
+    }
+
+    *result = (uint32_t)tmp;
+
+    return 0;
+}
+
+int wrapper_id_converter(PyObject *value, void *result)
+{
+    uint32_t id;
+
+    if (wrapper_parse_uint(value, 32, &id) != 0) {
+        return 0;
+    }
+
+    *((bpak_id_t *)result) = id;
+
+    return 1;
+}
+
 /* MODULE DEFINITION */
 static PyObject *m_generate_id(PyObject *module, PyObject *args, PyObject *kwds)
 {
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 4cf87f7..2291c3d 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -33,6 +33,13 @@ extern PyObject *BPAKPackageError;
 bool package_is_open(BPAKPackage *package);
 int package_write_header(BPAKPackage *package, bool update_hash);
 
+/* Convert an integer object that fits in 'bits' bits, sets an exception and
+ * returns -1 otherwise. 'value' is NULL when an attribute is deleted */
+int wrapper_parse_uint(PyObject *value, unsigned int bits, uint32_t *result);
+
+/* "O&" converter for bpak id's */
+int wrapper_id_converter(PyObject *value, void *result);
+
 PyObject *part_allocate(BPAKPackage *package, bpak_id_t part_id);
 PyObject *meta_allocate(BPAKPackage *package, bpak_id_t meta_id, bpak_id_t part_ref);
 
-- 
2.43.0


From 659a6544262bfe68a8db69e8ad9f12c7f428dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 64/86] fix: python: flush what was written and report failures

---
 python/meta.c           | 13 +++++-
 python/package.c        | 90 +++++++++++++++++++++++++++++++++--------
 python/part.c           |  7 +++-
 python/python_wrapper.c |  8 ++++
 python/python_wrapper.h |  1 +
 5 files changed, 99 insertions(+), 20 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 67a3710..33e501f 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -81,15 +81,17 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
     }
 
     m->id = meta_id;
-    meta->meta_id = meta_id;
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
+        m->id = meta->meta_id;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
     }
 
+    meta->meta_id = meta_id;
+
     return 0;
 }
 
@@ -128,15 +130,17 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
     }
 
     m->part_id_ref = part_ref;
-    meta->part_ref = part_ref;
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
+        m->part_id_ref = meta->part_ref;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
     }
 
+    meta->part_ref = part_ref;
+
     return 0;
 }
 
@@ -227,6 +231,7 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
     }
 
     uint8_t *meta_data = bpak_get_meta_ptr(h, m, uint8_t);
+    struct bpak_header saved_header = *h;
 
     rc = 0;
     if (new_size <= m->size) {
@@ -241,6 +246,7 @@ static int meta_set_rawdata(PyObject *self, PyObject *value, void* closure)
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         rc = -1;
@@ -319,10 +325,13 @@ static PyObject *meta_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
                 bpak_error_string(rc));
     }
 
+    struct bpak_header saved_header = *h;
+
     bpak_del_meta(h, m);
 
     rc = package_write_header(meta->package, false);
     if (rc != BPAK_OK) {
+        *h = saved_header;
         return PyErr_Format(PyExc_IOError, "could not write header: %s",
             bpak_error_string(rc));
     }
diff --git a/python/package.c b/python/package.c
index 73470b7..ec39187 100644
--- a/python/package.c
+++ b/python/package.c
@@ -9,6 +9,15 @@
 
 #include "python_wrapper.h"
 
+int package_flush(BPAKPackage *package)
+{
+    if (fflush(package->pkg.fp) != 0) {
+        return -BPAK_WRITE_ERROR;
+    }
+
+    return BPAK_OK;
+}
+
 int package_write_header(BPAKPackage *package, bool update_hash)
 {
     int rc = 0;
@@ -21,9 +30,11 @@ int package_write_header(BPAKPackage *package, bool update_hash)
     }
 
     rc = bpak_pkg_write_header(&package->pkg);
-    fflush(package->pkg.fp);
+    if (rc != BPAK_OK) {
+        return rc;
+    }
 
-    return rc;
+    return package_flush(package);
 }
 
 bool package_is_open(BPAKPackage *package)
@@ -93,11 +104,17 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
 
 static PyObject *package_close(PyObject *self, PyObject *Py_UNUSED(args))
 {
+    int rc;
     BPAKPackage *package = (BPAKPackage *)self;
 
-    bpak_pkg_close(&package->pkg);
+    rc = bpak_pkg_close(&package->pkg);
     memset(&package->pkg, 0, sizeof(package->pkg));
 
+    if (rc != BPAK_OK) {
+        return PyErr_Format(PyExc_IOError, "could not close package: %s",
+                bpak_error_string(rc));
+    }
+
     Py_RETURN_NONE;
 }
 
@@ -168,11 +185,18 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    struct bpak_header saved_header = package->pkg.header;
+
     rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(sign_key_filename));
 
     Py_DECREF(sign_key_filename);
 
+    if (rc == BPAK_OK) {
+        rc = package_flush(package);
+    }
+
     if (rc != BPAK_OK) {
+        package->pkg.header = saved_header;
         return PyErr_Format(BPAKPackageError, "signing failed: %s",
                 bpak_error_string(rc));
     }
@@ -209,6 +233,8 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
         return NULL;
     }
 
+    struct bpak_header saved_header = package->pkg.header;
+
     if (with_merkle_tree) {
         rc = bpak_pkg_add_file_with_merkle_tree(&package->pkg,
                 PyBytes_AsString(filename), part_name, 0);
@@ -219,7 +245,12 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
 
     Py_DECREF(filename);
 
+    if (rc == BPAK_OK) {
+        rc = package_flush(package);
+    }
+
     if (rc != BPAK_OK) {
+        package->pkg.header = saved_header;
         return PyErr_Format(BPAKPackageError, "Failed to add file to package: %s",
                 bpak_error_string(rc));
     }
@@ -260,11 +291,18 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
+    struct bpak_header saved_header = package->pkg.header;
+
     rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename), part_name, 0);
 
     Py_DECREF(filename);
 
+    if (rc == BPAK_OK) {
+        rc = package_flush(package);
+    }
+
     if (rc != BPAK_OK) {
+        package->pkg.header = saved_header;
         return PyErr_Format(BPAKPackageError, "failed to add key to package: %s",
                 bpak_error_string(rc));
     }
@@ -345,6 +383,8 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         }
     }
 
+    struct bpak_header saved_header = *h;
+
     rc = bpak_add_meta(h, meta_id, part_ref, size, &meta);
     if (rc != BPAK_OK) {
         PyErr_Format(BPAKPackageError, "failed to add metadata: %s",
@@ -363,17 +403,18 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         memcpy(meta_ptr, new_data, to_copy);
     }
 
-    if (was_unicode) {
-        Py_DECREF(data);
-    }
-
     rc = package_write_header(package, false);
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         goto err_out;
     }
 
+    if (was_unicode) {
+        Py_DECREF(data);
+    }
+
     return meta_allocate(package, meta->id, meta->part_id_ref);
 
 err_out:
@@ -454,9 +495,9 @@ static PyObject *package_enter(PyObject *self, PyObject *Py_UNUSED(args))
 
 static PyObject *package_exit(PyObject *self, PyObject *args)
 {
-    package_close(self, args);
+    (void)args;
 
-    Py_RETURN_NONE;
+    return package_close(self, NULL);
 }
 
 /* Getters and setters */
@@ -504,11 +545,14 @@ static int package_set_hash_kind(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     h->hash_kind = hash_kind;
 
     rc = package_write_header(package, false);
 
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
@@ -542,11 +586,14 @@ static int package_set_key_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     h->key_id = key_id;
 
     rc = package_write_header(package, false);
 
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
@@ -580,11 +627,14 @@ static int package_set_keystore_id(PyObject *self, PyObject *value, void *closur
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     h->keystore_id = keystore_id;
 
     rc = package_write_header(package, false);
 
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
@@ -620,24 +670,27 @@ static int package_set_signature(PyObject *self, PyObject *value,
 
     /* Handle clearing / del */
     if (value == NULL || value == Py_None) {
-        bpak_pkg_write_raw_signature(&package->pkg, empty_signature, 0);
-        return 0;
-    }
-
-    if (!PyBytes_Check(value)) {
+        signature_data = (uint8_t *)empty_signature;
+        signature_sz = 0;
+    } else if (!PyBytes_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "type mismatch");
 	    return -1;
-    }
-
-    if (PyBytes_AsStringAndSize(value, (char**)&signature_data, &signature_sz) < 0) {
+    } else if (PyBytes_AsStringAndSize(value, (char**)&signature_data, &signature_sz) < 0) {
         return -1;
     }
 
+    struct bpak_header saved_header = package->pkg.header;
+
     rc = bpak_pkg_write_raw_signature(&package->pkg,
                                       signature_data,
                                       signature_sz);
 
+    if (rc == BPAK_OK) {
+        rc = package_flush(package);
+    }
+
     if (rc != BPAK_OK) {
+        package->pkg.header = saved_header;
         PyErr_Format(BPAKPackageError, "failed to set signature data: %s",
                 bpak_error_string(rc));
         return -1;
@@ -671,11 +724,14 @@ static int package_set_signature_kind(PyObject *self, PyObject *value, void *clo
         return -1;
     }
 
+    struct bpak_header saved_header = *h;
+
     h->signature_kind = signature_kind;
 
     rc = package_write_header(package, false);
 
     if (rc != BPAK_OK) {
+        *h = saved_header;
         PyErr_Format(PyExc_IOError, "could not write header: %s",
                 bpak_error_string(rc));
         return -1;
diff --git a/python/part.c b/python/part.c
index 74b49af..482a70f 100644
--- a/python/part.c
+++ b/python/part.c
@@ -80,14 +80,16 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
     }
 
     p->id = part_id;
-    part->part_id = part_id;
 
     rc = package_write_header(part->package, false);
     if (rc != BPAK_OK) {
+        p->id = part->part_id;
         PyErr_SetString(PyExc_IOError, "could not write header");
         return -1;
     }
 
+    part->part_id = part_id;
+
     return 0;
 }
 
@@ -198,8 +200,11 @@ static PyObject *part_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
         return NULL;
     }
 
+    struct bpak_header saved_header = part->package->pkg.header;
+
     rc = bpak_pkg_delete_part(&part->package->pkg, part->part_id, true);
     if (rc != BPAK_OK) {
+        part->package->pkg.header = saved_header;
         return PyErr_Format(BPAKPackageError, "failed to delete part: %s",
                 bpak_error_string(rc));
     }
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index d9649f6..994ddf8 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -169,6 +169,10 @@ static PyObject *m_transport_encode(PyObject *self, PyObject *args,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
 
+    if (rc == BPAK_OK) {
+        rc = package_flush(output);
+    }
+
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError,
             "Transport encoding failed: %s", bpak_error_string(rc));
@@ -210,6 +214,10 @@ static PyObject *m_transport_decode(PyObject *self, PyObject *args,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
 
+    if (rc == BPAK_OK) {
+        rc = package_flush(output);
+    }
+
     if (rc != BPAK_OK) {
         return PyErr_Format(BPAKPackageError,
             "Transport decoding failed: %s", bpak_error_string(rc));
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 2291c3d..4cc6d14 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -31,6 +31,7 @@ extern PyObject *BPAKPackageError;
 
 /* Sets an exception and returns false if the package is closed */
 bool package_is_open(BPAKPackage *package);
+int package_flush(BPAKPackage *package);
 int package_write_header(BPAKPackage *package, bool update_hash);
 
 /* Convert an integer object that fits in 'bits' bits, sets an exception and
-- 
2.43.0


From 7295c90ea3cccc32e6046bbd702d74018f5a79ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 65/86] fix: python: don't leak the elements of the part and
 metadata lists

---
 python/package.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/python/package.c b/python/package.c
index ec39187..ef104f5 100644
--- a/python/package.c
+++ b/python/package.c
@@ -769,10 +769,9 @@ static PyObject *package_get_parts(PyObject *self, void *closure)
         return NULL;
     }
 
-    unsigned int idx = 0;
     bpak_foreach_part(hdr, p) {
         if (!p->id) {
-            break;
+            continue;
         }
 
         part = part_allocate(package, p->id);
@@ -783,13 +782,12 @@ static PyObject *package_get_parts(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, part);
+        Py_DECREF(part);
         if (rc < 0) {
             Py_DECREF(list);
 
             return NULL;
         }
-
-        idx++;
     }
 
     return list;
@@ -810,10 +808,9 @@ static PyObject *package_get_meta_list(PyObject *self, void *closure)
         return NULL;
     }
 
-    unsigned int idx = 0;
     bpak_foreach_meta(hdr, m) {
         if (!m->id) {
-            break;
+            continue;
         }
 
         meta = meta_allocate(package, m->id, m->part_id_ref);
@@ -824,13 +821,12 @@ static PyObject *package_get_meta_list(PyObject *self, void *closure)
         }
 
         rc = PyList_Append(list, meta);
+        Py_DECREF(meta);
         if (rc < 0) {
             Py_DECREF(list);
 
             return NULL;
         }
-
-        idx++;
     }
 
     return list;
-- 
2.43.0


From dfcf2fbb5557c2e44afe2f406e589dfd773be7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 66/86] fix: python: read empty parts and report read errors
 correctly

---
 python/part.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/part.c b/python/part.c
index 482a70f..035a135 100644
--- a/python/part.c
+++ b/python/part.c
@@ -2,6 +2,8 @@
  *  when parsing arguments */
 #define PY_SSIZE_T_CLEAN
 #include <Python.h>
+#include <errno.h>
+#include <string.h>
 #include <bpak/bpak.h>
 #include <bpak/pkg.h>
 
@@ -170,6 +172,10 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
     size_t read_size;
     FILE *fp = part->package->pkg.fp;
 
+    if (part_size > PY_SSIZE_T_MAX) {
+        return PyErr_Format(PyExc_IOError, "failed to read: Bad part size");
+    }
+
     bytes = PyBytes_FromStringAndSize(NULL, part_size);
     if (!bytes) {
         return NULL;
@@ -178,14 +184,15 @@ static PyObject *part_read_data(PyObject *self, PyObject *Py_UNUSED(ignored))
     if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) < 0) {
         Py_DECREF(bytes);
         return PyErr_Format(PyExc_IOError, "failed to seek: %s",
-                strerror(ferror(fp)));
+                strerror(errno));
     }
 
-    read_size = fread(PyBytes_AsString(bytes), part_size, 1, fp);
-    if (read_size != 1) {
+    read_size = fread(PyBytes_AsString(bytes), 1, part_size, fp);
+    if (read_size != part_size) {
+        PyErr_Format(PyExc_IOError, "failed to read: %s",
+                ferror(fp) ? strerror(errno) : "Archive is truncated");
         Py_DECREF(bytes);
-        return PyErr_Format(PyExc_IOError, "failed to read: %s",
-                strerror(ferror(fp)));
+        return NULL;
     }
 
     return bytes;
-- 
2.43.0


From 493b4cbf3962347f737cb90f27f55fe6258e6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 67/86] fix: python: don't read beyond the header

---
 python/meta.c    |  5 +----
 python/package.c | 11 +++++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/meta.c b/python/meta.c
index 33e501f..950539a 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -300,10 +300,7 @@ static PyObject *meta_as_string(PyObject *self, PyObject *Py_UNUSED(ignored))
     }
 
     char *meta_ptr = bpak_get_meta_ptr(h, m, char);
-    size_t len = strlen(meta_ptr);
-    if (len > m->size) {
-        len = m->size;
-    }
+    size_t len = strnlen(meta_ptr, m->size);
 
     return PyUnicode_DecodeASCII(meta_ptr, len, "strict");
 }
diff --git a/python/package.c b/python/package.c
index ef104f5..41bbade 100644
--- a/python/package.c
+++ b/python/package.c
@@ -517,7 +517,7 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
     if (bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size) != BPAK_OK)
         Py_RETURN_NONE;
 
-    return Py_BuildValue("y#", digest_data, hash_size);
+    return Py_BuildValue("y#", digest_data, (Py_ssize_t)hash_size);
 }
 
 static PyObject *package_get_hash_kind(PyObject *self, void *closure)
@@ -647,10 +647,13 @@ static PyObject *package_get_signature(PyObject *self, void *closure)
 {
     (void)closure;
     BPAKPackage *package = (BPAKPackage *)self;
+    struct bpak_header *h = bpak_pkg_header(&package->pkg);
+
+    if (h->signature_sz > sizeof(h->signature)) {
+        return PyErr_Format(BPAKPackageError, "invalid signature size");
+    }
 
-    return Py_BuildValue("y#",
-                         package->pkg.header.signature,
-                         package->pkg.header.signature_sz);
+    return Py_BuildValue("y#", h->signature, (Py_ssize_t)h->signature_sz);
 }
 
 static int package_set_signature(PyObject *self, PyObject *value,
-- 
2.43.0


From f97c8d0e7ec76aa61bbc25be494d1265a550c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 68/86] fix: python: refuse id's that are zero or already in
 use

---
 python/meta.c | 18 ++++++++++++++++++
 python/part.c |  9 +++++++++
 2 files changed, 27 insertions(+)

diff --git a/python/meta.c b/python/meta.c
index 950539a..e901d3a 100644
--- a/python/meta.c
+++ b/python/meta.c
@@ -80,6 +80,16 @@ static int meta_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_meta_header *other;
+
+    /* Zero marks unused metadata headers and id's must be unique */
+    if (meta_id == 0 ||
+        (meta_id != meta->meta_id &&
+         bpak_get_meta(h, meta_id, meta->part_ref, &other) == BPAK_OK)) {
+        PyErr_SetString(PyExc_ValueError, "meta id is zero or already in use");
+        return -1;
+    }
+
     m->id = meta_id;
 
     rc = package_write_header(meta->package, false);
@@ -129,6 +139,14 @@ static int meta_set_part_id_ref(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_meta_header *other;
+
+    if (part_ref != meta->part_ref &&
+        bpak_get_meta(h, meta->meta_id, part_ref, &other) == BPAK_OK) {
+        PyErr_SetString(PyExc_ValueError, "meta id is already in use");
+        return -1;
+    }
+
     m->part_id_ref = part_ref;
 
     rc = package_write_header(meta->package, false);
diff --git a/python/part.c b/python/part.c
index 035a135..8721acc 100644
--- a/python/part.c
+++ b/python/part.c
@@ -81,6 +81,15 @@ static int part_set_id(PyObject *self, PyObject *value, void *closure)
         return -1;
     }
 
+    struct bpak_part_header *other;
+
+    /* Zero marks unused part headers and id's must be unique */
+    if (part_id == 0 || (part_id != part->part_id &&
+                         bpak_get_part(h, part_id, &other) == BPAK_OK)) {
+        PyErr_SetString(PyExc_ValueError, "part id is zero or already in use");
+        return -1;
+    }
+
     p->id = part_id;
 
     rc = package_write_header(part->package, false);
-- 
2.43.0


From 24e166121f45952a41d6d875ff147f6700497b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 69/86] fix: python: check the id and size of new metadata

---
 python/package.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/package.c b/python/package.c
index 41bbade..736419f 100644
--- a/python/package.c
+++ b/python/package.c
@@ -383,6 +383,11 @@ static PyObject *package_add_meta(PyObject *self, PyObject *args, PyObject *kwds
         }
     }
 
+    if (meta_id == 0 || size < 0 || size > UINT16_MAX) {
+        PyErr_SetString(PyExc_ValueError, "meta id is zero or bad size");
+        goto err_out;
+    }
+
     struct bpak_header saved_header = *h;
 
     rc = bpak_add_meta(h, meta_id, part_ref, size, &meta);
-- 
2.43.0


From 6ad1013e8585d15c315ade20c1ca71d16490ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 70/86] fix: python: don't modify the package when the digest
 is read

---
 python/package.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/package.c b/python/package.c
index 736419f..29c743c 100644
--- a/python/package.c
+++ b/python/package.c
@@ -519,7 +519,10 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
         return NULL;
     }
 
-    if (bpak_pkg_update_hash(&package->pkg, digest_data, &hash_size) != BPAK_OK)
+    /* Reading the digest should not change the package */
+    struct bpak_package pkg = package->pkg;
+
+    if (bpak_pkg_update_hash(&pkg, digest_data, &hash_size) != BPAK_OK)
         Py_RETURN_NONE;
 
     return Py_BuildValue("y#", digest_data, (Py_ssize_t)hash_size);
-- 
2.43.0


From 9b7eb4df01e5e3102005bc00e76a3e9aae18c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 71/86] fix: refuse to add parts and metadata with id zero

---
 lib/bpak.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/bpak.c b/lib/bpak.c
index f60ef78..dafa60f 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -54,6 +54,10 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 {
     uint16_t new_offset = 0;
 
+    /* Zero marks unused metadata headers */
+    if (id == 0)
+        return -BPAK_NOT_SUPPORTED;
+
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
             if ((new_offset + size) > BPAK_METADATA_BYTES)
@@ -119,6 +123,10 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
 BPAK_EXPORT int bpak_add_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
+    /* Zero marks unused part headers */
+    if (id == 0)
+        return -BPAK_NOT_SUPPORTED;
+
     bpak_foreach_part (hdr, p) {
         if (!p->id) {
             p->id = id;
-- 
2.43.0


From 8b1543e6b6a7d2ba15aae9c18cc0885f27f75f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:54 +0000
Subject: [PATCH 72/86] fix: include padding in the package size

---
 lib/pkg.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 237a68e..a21fd9c 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -173,10 +173,7 @@ BPAK_EXPORT size_t bpak_pkg_size(struct bpak_package *pkg)
     size_t transport_size = 0;
 
     bpak_foreach_part (&pkg->header, p) {
-        if (p->flags & BPAK_FLAG_TRANSPORT)
-            transport_size += p->transport_size;
-        else
-            transport_size += p->size;
+        transport_size += bpak_part_size(p);
     }
 
     transport_size += sizeof(struct bpak_header);
-- 
2.43.0


From 2085035b54ab440e2a0dfa69be3888ed176e8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 73/86] fix: extract all of the data of transport encoded parts

---
 lib/pkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index a21fd9c..f9ee017 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -464,7 +464,7 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
     }
 
     char copy_buffer[BPAK_CHUNK_BUFFER_LENGTH];
-    size_t bytes_to_copy = bpak_part_size(part) - part->pad_bytes;
+    size_t bytes_to_copy = bpak_part_size_wo_pad(part);
     size_t chunk_to_write = 0;
     size_t chunk_read = 0;
 
-- 
2.43.0


From e784b2c672ef1134284f94560b3e04b534d4c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 74/86] fix: check the hash kind before a part is deleted

---
 lib/pkg.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index f9ee017..99e18ca 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -516,6 +516,13 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         return rc;
     }
 
+    /* The payload hash must be possible to compute */
+    if (h->hash_kind != BPAK_HASH_SHA256 && h->hash_kind != BPAK_HASH_SHA384 &&
+        h->hash_kind != BPAK_HASH_SHA512) {
+        bpak_printf(0, "%s: Error: Unknown hash kind\n", __func__);
+        return -BPAK_UNSUPPORTED_HASH_ALG;
+    }
+
     p_offset = bpak_part_offset(h, part);
     p_size = bpak_part_size(part);
 
-- 
2.43.0


From d77f58750e1de4e3028d7a377d534633d6520ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 75/86] fix: update the header of the output package when
 decoding

---
 lib/pkg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 99e18ca..3147a69 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -279,7 +279,9 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 {
     int rc;
 
-    struct bpak_header *patch_header = bpak_pkg_header(input);
+    /* The decoder updates the header, keep the input package as it is */
+    struct bpak_header header = input->header;
+    struct bpak_header *patch_header = &header;
     struct bpak_part_header *origin_part = NULL;
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
@@ -402,6 +404,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         }
     }
 
+    output->header = header;
+
 err_out:
     bpak_transport_decode_free(&decode_ctx);
     return rc;
-- 
2.43.0


From a9522de75c05539febef1f8afa3958a6de241394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 76/86] fix: write the header when an archive without parts is
 decoded

---
 lib/pkg.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 3147a69..bd46942 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -404,6 +404,16 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         }
     }
 
+    /* The decoder writes the header with the parts, there may be none */
+    if (decode_write_output_header(0,
+                                   (uint8_t *)patch_header,
+                                   sizeof(struct bpak_header),
+                                   &decode_private) !=
+        sizeof(struct bpak_header)) {
+        rc = -BPAK_WRITE_ERROR;
+        goto err_out;
+    }
+
     output->header = header;
 
 err_out:
-- 
2.43.0


From 50423121144a79a8ee7b73e486072d95b12c45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 77/86] fix: don't find unused parts and metadata with id zero

---
 lib/bpak.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index dafa60f..9b6a640 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -19,7 +19,8 @@ static int bpak_get_meta_int(struct bpak_header *hdr, bpak_id_t id,
                              struct bpak_meta_header **meta)
 {
     bpak_foreach_meta (hdr, m) {
-        if (m->id == id) {
+        /* Zero marks unused metadata headers */
+        if (m->id && m->id == id) {
             if (match_partref) {
                 if (m->part_id_ref != part_id_ref)
                     continue;
@@ -111,7 +112,8 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
     bpak_foreach_part (hdr, p) {
-        if (p->id == id) {
+        /* Zero marks unused part headers */
+        if (p->id && p->id == id) {
             (*part) = p;
             return BPAK_OK;
         }
-- 
2.43.0


From 5ff203f5efff0787671691c3e04d91da9088e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 78/86] fix: keep the header of the output package when
 encoding fails

---
 lib/pkg.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index bd46942..abe5767 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -425,8 +425,10 @@ BPAK_EXPORT int bpak_pkg_transport_encode(struct bpak_package *input,
                                           struct bpak_package *output,
                                           struct bpak_package *origin)
 {
+    int rc;
     FILE *origin_fp = NULL;
     struct bpak_header *origin_header = NULL;
+    struct bpak_header saved_header = output->header;
 
     if (origin != NULL) {
         if (origin->fp != NULL) {
@@ -435,12 +437,18 @@ BPAK_EXPORT int bpak_pkg_transport_encode(struct bpak_package *input,
         }
     }
 
-    return bpak_transport_encode(input->fp,
-                                 &input->header,
-                                 output->fp,
-                                 &output->header,
-                                 origin_fp,
-                                 origin_header);
+    rc = bpak_transport_encode(input->fp,
+                               &input->header,
+                               output->fp,
+                               &output->header,
+                               origin_fp,
+                               origin_header);
+
+    /* The header is written last, after everything else has succeeded */
+    if (rc != BPAK_OK)
+        output->header = saved_header;
+
+    return rc;
 }
 
 BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
-- 
2.43.0


From ac44078b1f0eee4afbadb1a45c24c27a1f293adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 79/86] fix: python: refuse to use a package from the log
 function of its own operation

---
 python/package.c        | 57 +++++++++++++++++++++++++++++++++++++----
 python/part.c           |  2 ++
 python/python_wrapper.c | 15 +++++++++++
 python/python_wrapper.h |  5 +++-
 4 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/python/package.c b/python/package.c
index 29c743c..b285d16 100644
--- a/python/package.c
+++ b/python/package.c
@@ -22,14 +22,18 @@ int package_write_header(BPAKPackage *package, bool update_hash)
 {
     int rc = 0;
 
+    package->busy++;
+
     if (update_hash) {
         rc = bpak_pkg_update_hash(&package->pkg, NULL, NULL);
-        if (rc < 0) {
-            return rc;
-        }
     }
 
-    rc = bpak_pkg_write_header(&package->pkg);
+    if (rc == BPAK_OK) {
+        rc = bpak_pkg_write_header(&package->pkg);
+    }
+
+    package->busy--;
+
     if (rc != BPAK_OK) {
         return rc;
     }
@@ -37,8 +41,22 @@ int package_write_header(BPAKPackage *package, bool update_hash)
     return package_flush(package);
 }
 
+bool package_is_busy(BPAKPackage *package)
+{
+    if (package->busy) {
+        PyErr_SetString(PyExc_RuntimeError, "package is in use");
+        return true;
+    }
+
+    return false;
+}
+
 bool package_is_open(BPAKPackage *package)
 {
+    if (package_is_busy(package)) {
+        return false;
+    }
+
     if (package->pkg.fp == NULL) {
         PyErr_SetString(PyExc_ValueError, "package is not open");
         return false;
@@ -56,6 +74,7 @@ static PyObject *package_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     self = (BPAKPackage *)type->tp_alloc(type, 0);
     if (self != NULL) {
         memset(&self->pkg, 0, sizeof(struct bpak_package));
+        self->busy = 0;
     }
     return (PyObject *)self;
 }
@@ -86,10 +105,17 @@ static int package_init(BPAKPackage *self, PyObject *args, PyObject *kwds)
         return -1;
     }
 
+    if (package_is_busy(self)) {
+        Py_DECREF(filename);
+        return -1;
+    }
+
     /* __init__ may be called more than once */
     bpak_pkg_close(&self->pkg);
 
+    self->busy++;
     rc = bpak_pkg_open(&self->pkg, PyBytes_AsString(filename), mode);
+    self->busy--;
 
     Py_DECREF(filename);
 
@@ -107,6 +133,10 @@ static PyObject *package_close(PyObject *self, PyObject *Py_UNUSED(args))
     int rc;
     BPAKPackage *package = (BPAKPackage *)self;
 
+    if (package_is_busy(package)) {
+        return NULL;
+    }
+
     rc = bpak_pkg_close(&package->pkg);
     memset(&package->pkg, 0, sizeof(package->pkg));
 
@@ -142,7 +172,9 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
         return NULL;
     }
 
+    self->busy++;
     rc = bpak_crypto_load_public_key(PyBytes_AsString(verify_key_filename), &key);
+    self->busy--;
 
     Py_DECREF(verify_key_filename);
 
@@ -151,7 +183,9 @@ static PyObject *package_verify(BPAKPackage *self, PyObject *args,
                 bpak_error_string(rc));
     }
 
+    self->busy++;
     rc = bpak_pkg_verify(&self->pkg, key);
+    self->busy--;
 
     free(key);
 
@@ -187,7 +221,9 @@ static PyObject *package_sign(PyObject *self, PyObject *args, PyObject *kwds)
 
     struct bpak_header saved_header = package->pkg.header;
 
+    package->busy++;
     rc = bpak_pkg_sign(&package->pkg, PyBytes_AsString(sign_key_filename));
+    package->busy--;
 
     Py_DECREF(sign_key_filename);
 
@@ -235,6 +271,8 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
 
     struct bpak_header saved_header = package->pkg.header;
 
+    package->busy++;
+
     if (with_merkle_tree) {
         rc = bpak_pkg_add_file_with_merkle_tree(&package->pkg,
                 PyBytes_AsString(filename), part_name, 0);
@@ -243,6 +281,7 @@ static PyObject *package_add_file(PyObject *self, PyObject *args, PyObject *kwds
                 part_name, 0);
     }
 
+    package->busy--;
     Py_DECREF(filename);
 
     if (rc == BPAK_OK) {
@@ -293,7 +332,9 @@ static PyObject *package_add_key(PyObject *self, PyObject *args, PyObject *kwds)
 
     struct bpak_header saved_header = package->pkg.header;
 
+    package->busy++;
     rc = bpak_pkg_add_key(&package->pkg, PyBytes_AsString(filename), part_name, 0);
+    package->busy--;
 
     Py_DECREF(filename);
 
@@ -522,7 +563,11 @@ static PyObject *package_get_digest(PyObject *self, void *closure)
     /* Reading the digest should not change the package */
     struct bpak_package pkg = package->pkg;
 
-    if (bpak_pkg_update_hash(&pkg, digest_data, &hash_size) != BPAK_OK)
+    package->busy++;
+    int rc = bpak_pkg_update_hash(&pkg, digest_data, &hash_size);
+    package->busy--;
+
+    if (rc != BPAK_OK)
         Py_RETURN_NONE;
 
     return Py_BuildValue("y#", digest_data, (Py_ssize_t)hash_size);
@@ -692,9 +737,11 @@ static int package_set_signature(PyObject *self, PyObject *value,
 
     struct bpak_header saved_header = package->pkg.header;
 
+    package->busy++;
     rc = bpak_pkg_write_raw_signature(&package->pkg,
                                       signature_data,
                                       signature_sz);
+    package->busy--;
 
     if (rc == BPAK_OK) {
         rc = package_flush(package);
diff --git a/python/part.c b/python/part.c
index 8721acc..222fdd8 100644
--- a/python/part.c
+++ b/python/part.c
@@ -218,7 +218,9 @@ static PyObject *part_delete(PyObject *self, PyObject *Py_UNUSED(ignored))
 
     struct bpak_header saved_header = part->package->pkg.header;
 
+    part->package->busy++;
     rc = bpak_pkg_delete_part(&part->package->pkg, part->part_id, true);
+    part->package->busy--;
     if (rc != BPAK_OK) {
         part->package->pkg.header = saved_header;
         return PyErr_Format(BPAKPackageError, "failed to delete part: %s",
diff --git a/python/python_wrapper.c b/python/python_wrapper.c
index 994ddf8..416cc2e 100644
--- a/python/python_wrapper.c
+++ b/python/python_wrapper.c
@@ -136,6 +136,17 @@ static PyObject *m_set_log_func(PyObject *module, PyObject *args,
     Py_RETURN_NONE;
 }
 
+static void transport_busy(BPAKPackage *input, BPAKPackage *output,
+                           BPAKPackage *origin, int change)
+{
+    input->busy += change;
+    output->busy += change;
+
+    if (origin) {
+        origin->busy += change;
+    }
+}
+
 static PyObject *m_transport_encode(PyObject *self, PyObject *args,
                                     PyObject *kwds)
 {
@@ -165,9 +176,11 @@ static PyObject *m_transport_encode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    transport_busy(input, output, origin, 1);
     rc = bpak_pkg_transport_encode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
+    transport_busy(input, output, origin, -1);
 
     if (rc == BPAK_OK) {
         rc = package_flush(output);
@@ -210,9 +223,11 @@ static PyObject *m_transport_decode(PyObject *self, PyObject *args,
         return NULL;
     }
 
+    transport_busy(input, output, origin, 1);
     rc = bpak_pkg_transport_decode(&input->pkg,
                                    &output->pkg,
                                    origin ? &origin->pkg : NULL);
+    transport_busy(input, output, origin, -1);
 
     if (rc == BPAK_OK) {
         rc = package_flush(output);
diff --git a/python/python_wrapper.h b/python/python_wrapper.h
index 4cc6d14..a28696a 100644
--- a/python/python_wrapper.h
+++ b/python/python_wrapper.h
@@ -8,6 +8,7 @@
 typedef struct {
     PyObject_HEAD
     struct bpak_package pkg;
+    unsigned int busy; /* Operations that are in progress */
 } BPAKPackage;
 
 typedef struct {
@@ -29,8 +30,10 @@ extern PyTypeObject BPAKMetaType;
 
 extern PyObject *BPAKPackageError;
 
-/* Sets an exception and returns false if the package is closed */
+/* Sets an exception and returns false if the package is closed or in use.
+ * Python code, the log function, may run during every library operation. */
 bool package_is_open(BPAKPackage *package);
+bool package_is_busy(BPAKPackage *package);
 int package_flush(BPAKPackage *package);
 int package_write_header(BPAKPackage *package, bool update_hash);
 
-- 
2.43.0


From fad4ec2bdfc39bc694b133157e79e09284b5d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 80/86] fix: check the hash kind before all parts are deleted

---
 lib/pkg.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index abe5767..6f17ffc 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -665,6 +665,13 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
     struct bpak_header *h = bpak_pkg_header(pkg);
     int rc;
 
+    /* The payload hash must be possible to compute */
+    if (h->hash_kind != BPAK_HASH_SHA256 && h->hash_kind != BPAK_HASH_SHA384 &&
+        h->hash_kind != BPAK_HASH_SHA512) {
+        bpak_printf(0, "%s: Error: Unknown hash kind\n", __func__);
+        return -BPAK_UNSUPPORTED_HASH_ALG;
+    }
+
     /* Clear out all parts data */
     memset(h->parts, 0, sizeof(h->parts));
 
-- 
2.43.0


From d1df25e67d7b51fdfa7dc43cc8add10d058a809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 81/86] fix: transport coding requires origin data for hash
 trees that are generated

---
 lib/pkg.c              | 13 -------------
 lib/transport_decode.c | 11 +++++++++++
 lib/transport_encode.c | 24 ++++++++++++------------
 3 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 6f17ffc..63d958e 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -282,7 +282,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
     /* The decoder updates the header, keep the input package as it is */
     struct bpak_header header = input->header;
     struct bpak_header *patch_header = &header;
-    struct bpak_part_header *origin_part = NULL;
     struct bpak_transport_decode decode_ctx;
     uint8_t chunk_buffer[BPAK_CHUNK_BUFFER_LENGTH];
     uint8_t decode_buffer[BPAK_CHUNK_BUFFER_LENGTH];
@@ -341,18 +340,6 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
         if (part->id == 0)
             break;
 
-        /* Encoded parts are decoded against the same part in origin */
-        if ((origin != NULL) && (part->flags & BPAK_FLAG_TRANSPORT)) {
-            rc = bpak_get_part(&origin->header, part->id, &origin_part);
-
-            if (rc != BPAK_OK) {
-                bpak_printf(0,
-                            "Error could not get part with ref %x\n",
-                            part->id);
-                goto err_out;
-            }
-        }
-
         rc = bpak_transport_decode_start(&decode_ctx, part);
 
         if (rc != BPAK_OK) {
diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index f533edd..7099d68 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -214,6 +214,7 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
 {
     int rc;
     struct bpak_meta_header *meta = NULL;
+    struct bpak_part_header *origin_part = NULL;
     ssize_t bytes_written;
 
     bytes_written = ctx->write_output_header(0,
@@ -251,6 +252,16 @@ BPAK_EXPORT int bpak_transport_decode_start(struct bpak_transport_decode *ctx,
             return -BPAK_PATCH_READ_ORIGIN_ERROR;
         }
 
+        /* The part is decoded against the same part in origin */
+        rc = bpak_get_part(ctx->origin_header, part->id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0,
+                        "Error could not get part with ref %x\n",
+                        part->id);
+            return rc;
+        }
+
         size_t patch_input_length = bpak_part_size(part);
         bpak_printf(2, "Patch input length: %zu\n", patch_input_length);
 
diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index c69f883..c70b5ad 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -258,17 +258,6 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
         return rc;
     }
 
-    if (origin_header != NULL) {
-        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
-
-        if (rc != BPAK_OK) {
-            bpak_printf(0,
-                        "Error could not get part with ref %x\n",
-                        part_ref_id);
-            return rc;
-        }
-    }
-
     alg_id = tm->alg_id_encode;
     bpak_printf(2,
                 "Encoding part 0x%x using encoder 0x%x\n",
@@ -283,7 +272,18 @@ transport_encode_part(struct bpak_transport_meta *tm, uint32_t part_ref_id,
                 "Initializing alg, input size %li bytes\n",
                 bpak_part_size(input_part));
 
-    if (origin_header != NULL && origin_fp != NULL) {
+    /* Parts whose data is removed don't need any origin data */
+    if (alg_id != BPAK_ID_REMOVE_DATA && origin_header != NULL &&
+        origin_fp != NULL) {
+        rc = bpak_get_part(origin_header, part_ref_id, &origin_part);
+
+        if (rc != BPAK_OK) {
+            bpak_printf(0,
+                        "Error could not get part with ref %x\n",
+                        part_ref_id);
+            return rc;
+        }
+
         rc = fseek(origin_fp,
                    bpak_part_offset(origin_header, origin_part),
                    SEEK_SET);
-- 
2.43.0


From 2bbaac05ab9ee9a9eee1ba46294ff5631d02d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 82/86] fix: show --part and --meta found an unused slot when
 asked for id zero

---
 src/show.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/show.c b/src/show.c
index a754b09..f304fc4 100644
--- a/src/show.c
+++ b/src/show.c
@@ -122,7 +122,7 @@ int action_show(int argc, char **argv)
         rc = -BPAK_MISSING_META_DATA;
 
         bpak_foreach_meta (h, m) {
-            if (m->id == meta_id) {
+            if (m->id && m->id == meta_id) {
                 if (part_name)
                     if (part_id != m->part_id_ref)
                         continue;
@@ -147,7 +147,7 @@ int action_show(int argc, char **argv)
         rc = -BPAK_NOT_FOUND;
 
         bpak_foreach_part (h, p) {
-            if (p->id == part_id) {
+            if (p->id && p->id == part_id) {
                 printf("Found 0x%x, %"PRIu64" bytes\n", p->id, p->size);
                 rc = BPAK_OK;
                 break;
-- 
2.43.0


From 2b9b9c8927a486f25d18ee5bdf98ae3e2d0fcfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:27 +0000
Subject: [PATCH 83/86] fix: verbose messages of the library go to stderr, not
 into the output

---
 src/main.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index d749de1..0c52ca4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -16,10 +16,8 @@ int bpak_printf(int verbosity, const char *fmt, ...)
 
     va_list args;
     va_start(args, fmt);
-    if (verbosity == 0)
-        vfprintf(stderr, fmt, args);
-    else
-        vprintf(fmt, args);
+    /* The standard output is for the data and listings of the commands */
+    vfprintf(stderr, fmt, args);
     va_end(args);
     return BPAK_OK;
 }
-- 
2.43.0


From 81666ed80dc1e2ebe477a8a632d56f4c2f8bc5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 84/86] fix: transport accepts its documented -D and -p options

---
 src/transport.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport.c b/src/transport.c
index cc0fe8a..c2fdc3e 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -52,7 +52,7 @@ int action_transport(int argc, char **argv)
 
     while ((opt = getopt_long(argc,
                               argv,
-                              "hvao:s:O:e:d:EGr:",
+                              "hvap:o:O:e:d:EDr:",
                               long_options,
                               &long_index)) != -1) {
         switch (opt) {
@@ -68,6 +68,7 @@ int action_transport(int argc, char **argv)
         case 'E':
             encode_flag = true;
             break;
+        case 'p':
         case 'r':
             part_ref = bpak_get_id_for_name_or_ref(optarg);
             break;
-- 
2.43.0


From 4a7750bbbaf32b24d7b4272c03ba163f9f4cc288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 85/86] fix: help texts name only options that are accepted

---
 src/misc.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/misc.c b/src/misc.c
index 328b0bd..16588ca 100644
--- a/src/misc.c
+++ b/src/misc.c
@@ -30,7 +30,6 @@ void print_common_usage(void)
 
     printf("Help options:\n");
     printf("    -h, --help                      Show this help message\n");
-    printf("    -V, --version                   Display version\n");
     printf("\n");
 }
 
@@ -118,8 +117,8 @@ void print_transport_usage(void)
 
     printf("Add options:\n");
     printf("    -p, --part <part name>    Which part id to operate on\n");
-    printf("    -e, --encode <enc. name>  Encoder algorithm to use\n");
-    printf("    -d, --decode <dec. name>  Decoder algorithm to use\n");
+    printf("    -e, --encoder <name>      Encoder algorithm to use\n");
+    printf("    -d, --decoder <name>      Decoder algorithm to use\n");
     printf("\n");
 
     printf("Encode/Decode options:\n");
@@ -276,5 +275,8 @@ void print_usage(void)
     printf("    extract                         Extract parts or meta data\n");
     printf("\n");
 
-    print_common_usage();
+    printf("Options:\n");
+    printf("    -h, --help                      Show this help message\n");
+    printf("    -V, --version                   Display version\n");
+    printf("\n");
 }
-- 
2.43.0


From accb9f9fa7bd0e068e2aa2efa523fe8b7e1ef3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:58 +0000
Subject: [PATCH 86/86] fix: keep the data of a part until the header no longer
 lists it

---
 lib/pkg_create.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 93b5fcb..085e4d0 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -240,9 +240,12 @@ err_free_buf_out:
     bpak_free(merkle_buf);
 
     if (rc != BPAK_OK) {
-        undo_addition(pkg, &saved_header, saved_length);
-        /* The header was written when the data part was added */
-        (void)bpak_pkg_write_header(pkg);
+        memcpy(h, &saved_header, sizeof(*h));
+
+        /* The header was written when the data part was added, the data can
+         * be dropped when it no longer is in use */
+        if (bpak_pkg_write_header(pkg) == BPAK_OK && fflush(pkg->fp) == 0)
+            undo_addition(pkg, &saved_header, saved_length);
     }
 
     return rc;
-- 
2.43.0

