From 3270ec521c92d58db042f8a619e32327e3ef1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:31 +0000
Subject: [PATCH 01/43] verif: FTWIN_VERIF sets smaller chunk and page sizes
 for bounded checking

---
 src/ft_file.c          | 4 ++++
 src/napr_db_internal.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ft_file.c b/src/ft_file.c
index 9cd27c6..b0ac4f3 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -41,7 +41,11 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
  * reading and comparing large files. Using a larger chunk size can improve
  * I/O performance but will increase memory usage.
  */
+#ifdef FTWIN_VERIF
+static const size_t HUGE_LEN = FTWIN_VERIF_CHUNK;
+#else
 static const size_t HUGE_LEN = 64L * 1024L;
+#endif
 
 static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft_hash_t *hash_out, apr_pool_t *gc_pool)
 {
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 2693387..c1c8d29 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -125,7 +125,11 @@ typedef struct DB_ReaderSlot
  */
 
 /** Database page size in bytes */
+#ifdef FTWIN_VERIF
+#define PAGE_SIZE       FTWIN_VERIF_PAGE_SIZE
+#else
 #define PAGE_SIZE       4096
+#endif
 
 /** Database file magic number */
 #define DB_MAGIC        0xDECAFBAD
-- 
2.43.0


From 60c456423db13be204ae39e45e0ac73e10503572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:54 +0000
Subject: [PATCH 02/43] fix: compare files to their ends when reads come back
 short or one file ended early

---
 src/ft_file.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index b0ac4f3..af36213 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -183,7 +183,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
     status = apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool);
     if (APR_SUCCESS != status) {
         (void) apr_file_close(fd2);
-        (void) apr_file_close(fd2);
+        (void) apr_mmap_delete(mm1);
         (void) apr_file_close(fd1);
         return big_filecmp(pool, fname1, fname2, size, result_out);
     }
@@ -254,21 +254,20 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
         return status1;
     }
 
+    *result_out = 0;
     do {
-        rbytes1 = HUGE_LEN;
-        status1 = apr_file_read(fd1, data_chunk1, &rbytes1);
-        rbytes2 = rbytes1;
-        status2 = apr_file_read(fd2, data_chunk2, &rbytes2);
-        if ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (rbytes2 == rbytes1)) {
-            *result_out = memcmp(data_chunk1, data_chunk2, rbytes1);
+        status1 = apr_file_read_full(fd1, data_chunk1, HUGE_LEN, &rbytes1);
+        status2 = apr_file_read_full(fd2, data_chunk2, HUGE_LEN, &rbytes2);
+        if (((APR_SUCCESS != status1) && (APR_EOF != status1)) || ((APR_SUCCESS != status2) && (APR_EOF != status2))) {
+            DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
+            DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
+            (void) apr_file_close(fd2);
+            (void) apr_file_close(fd1);
+            return ((APR_SUCCESS != status1) && (APR_EOF != status1)) ? status1 : status2;
         }
-    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out) && (rbytes2 == rbytes1));
-
-    if ((APR_EOF != status1) && (APR_EOF != status2) && (0 == *result_out)) {
-        DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
-        DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
-        return status1;
-    }
+        /* A length mismatch means that one file ended before the other. */
+        *result_out = (rbytes1 == rbytes2) ? memcmp(data_chunk1, data_chunk2, rbytes1) : 1;
+    } while ((0 == *result_out) && (APR_SUCCESS == status1) && (APR_SUCCESS == status2));
 
     status1 = apr_file_close(fd2);
     if (APR_SUCCESS != status1) {
-- 
2.43.0


From 9e418334ed3ad5391f23c1f18ead12c5a3f4f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:10 +0000
Subject: [PATCH 03/43] verif: FTWIN_VERIF sets a small initial heap size

---
 src/napr_heap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/napr_heap.c b/src/napr_heap.c
index 2e1e723..5cb1365 100644
--- a/src/napr_heap.c
+++ b/src/napr_heap.c
@@ -27,7 +27,11 @@
 
 enum
 {
+#ifdef FTWIN_VERIF
+    INITIAL_MAX = FTWIN_VERIF_HEAP_MAX
+#else
     INITIAL_MAX = 256
+#endif
 };
 
 static inline unsigned int napr_heap_parent(unsigned int position)
-- 
2.43.0


From 6496ca81340e8db67fdcf64afb0b49c101861e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:44 +0000
Subject: [PATCH 04/43] fix: skip files already reported when looking for twins
 of a file

---
 src/ft_report.c      | 3 +++
 src/ft_report_json.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ft_report.c b/src/ft_report.c
index a4099e4..9327804 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -83,6 +83,9 @@ static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_f
     for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
         /* If hashes match, perform a full comparison */
         if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
+            if (NULL == fsize->chksum_array[j_index].file) {
+                continue;       /* Already reported as a duplicate of another file */
+            }
             if (compare_and_report_pair(conf, fsize, index, j_index, &already_printed, colors) != APR_SUCCESS) {
                 return APR_EGENERAL;
             }
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index b58eb61..111b6c5 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -145,6 +145,9 @@ static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsiz
 
         for (size_t j = i + 1; j < fsize->nb_files; j++) {
             if (memcmp(&fsize->chksum_array[i].hash_value, &fsize->chksum_array[j].hash_value, sizeof(ft_hash_t)) == 0) {
+                if (fsize->chksum_array[j].file == NULL) {
+                    continue;   /* Already reported as a duplicate of another file */
+                }
                 status = perform_file_comparison(conf, &fsize->chksum_array[i], &fsize->chksum_array[j], fsize->val, &result);
                 if (status != APR_SUCCESS) {
                     return status;
-- 
2.43.0


From 45c26cc7da1ea0cb3b81268846f63444a08e7dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:44 +0000
Subject: [PATCH 05/43] fix: skip a pair whose archive member cannot be
 extracted instead of stopping the report

---
 src/ft_report.c      | 2 +-
 src/ft_report_json.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ft_report.c b/src/ft_report.c
index 9327804..a054469 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -237,7 +237,7 @@ static apr_status_t compare_and_report_pair(ft_conf_t *conf, ft_fsize_t *fsize,
 
     if (get_comparison_paths(conf, file1, file2, &fpathi, &fpathj) != APR_SUCCESS) {
         DEBUG_ERR("Failed to get comparison paths for %s and %s", file1->path, file2->path);
-        return APR_EGENERAL;
+        return APR_SUCCESS;     /* Continue processing other pairs */
     }
 
     status = filecmp(conf->pool, fpathi, fpathj, fsize->val, conf->excess_size, &return_value);
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index 111b6c5..eea24cc 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -99,7 +99,8 @@ static apr_status_t perform_file_comparison(ft_conf_t *conf, ft_chksum_t *chksum
 
     if (get_comparison_paths(conf, file1, file2, &fpath1, &fpath2) != APR_SUCCESS) {
         DEBUG_ERR("Failed to get comparison paths for %s and %s", file1->path, file2->path);
-        return APR_EGENERAL;
+        *result = 1;            /* Treat extraction error as "not a duplicate" */
+        return APR_SUCCESS;
     }
 
     status = filecmp(conf->pool, fpath1, fpath2, file_size, conf->excess_size, result);
-- 
2.43.0


From 58b617491bdf409f3f354c4c9ad8515f362d0962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:45 +0000
Subject: [PATCH 06/43] fix: reject sizes that do not fit instead of converting
 them with undefined results

---
 src/human_size.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/human_size.c b/src/human_size.c
index 896ce35..1b16f22 100644
--- a/src/human_size.c
+++ b/src/human_size.c
@@ -15,6 +15,7 @@ static const apr_off_t KIBIBYTE = 1024LL;
 static const apr_off_t MEBIBYTE = 1024LL * 1024LL;
 static const apr_off_t GIBIBYTE = 1024LL * 1024LL * 1024LL;
 static const apr_off_t TEBIBYTE = 1024LL * 1024LL * 1024LL * 1024LL;
+static const double OFF_T_LIMIT = 9223372036854775808.0;        /* 2^63 */
 
 const char *format_human_size(apr_off_t size, apr_pool_t *pool)
 {
@@ -67,5 +68,10 @@ apr_off_t parse_human_size(const char *size_str)
         }
     }
 
-    return (apr_off_t) (size * (double) multiplier);
+    size *= (double) multiplier;
+    if (!(size >= 0.0 && size < OFF_T_LIMIT)) {
+        return -1;              // Negative, not a number, or too large for apr_off_t
+    }
+
+    return (apr_off_t) size;
 }
-- 
2.43.0


From ec409debc0b0164267f47bfa7d748a10086b17af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:24 +0000
Subject: [PATCH 07/43] fix: add a name repeated in the ignore list once

---
 src/ft_config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 3c0e8ee..7adf046 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -155,8 +155,9 @@ static void ft_hash_add_ignore_list(napr_hash_t *hash, const char *file_list)
         else {
             tmp = apr_pstrdup(pool, filename);
         }
-        napr_hash_search(hash, tmp, strlen(tmp), &hash_value);
-        napr_hash_set(hash, tmp, hash_value);
+        if (NULL == napr_hash_search(hash, tmp, strlen(tmp), &hash_value)) {
+            napr_hash_set(hash, tmp, hash_value);
+        }
 
         if (NULL != end) {
             filename = end + 1;
-- 
2.43.0


From bcb089613ca42acf13d021e5fff5062ffd905b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:24 +0000
Subject: [PATCH 08/43] fix: reject an unknown option instead of taking the
 rest of the command line as files

---
 src/ft_config.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index 7adf046..dc9f6dc 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -620,6 +620,11 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
         }
     }
 
+    if (APR_EOF != status) {
+        print_usage_and_exit(argv[0], opt_option, "Invalid option or missing argument.", "");
+        return APR_EGENERAL;
+    }
+
     if (argc - opt_state->ind < 1) {
         print_usage_and_exit(argv[0], opt_option, "Please submit at least one file or directory to process.", "");
         return APR_EGENERAL;
-- 
2.43.0


From aa4d4262f8bda2b358e0a085ca22a9bec8738218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:51 +0000
Subject: [PATCH 09/43] fix: leave files that could not be hashed out of the
 duplicate table

---
 src/ft_process.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ft_process.c b/src/ft_process.c
index b53cfe6..d6c96c1 100644
--- a/src/ft_process.c
+++ b/src/ft_process.c
@@ -32,6 +32,7 @@ static apr_status_t hashing_worker_callback(void *hashing_ctx, void *task_data)
     status = apr_pool_create(&subpool, h_ctx->pool);
     if (APR_SUCCESS != status) {
         DEBUG_ERR("error calling apr_pool_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+        fsize->chksum_array[task->index].file = NULL;
         return status;
     }
 
@@ -39,6 +40,7 @@ static apr_status_t hashing_worker_callback(void *hashing_ctx, void *task_data)
         filepath = ft_archive_untar_file(file, subpool);
         if (NULL == filepath) {
             DEBUG_ERR("error calling ft_archive_untar_file");
+            fsize->chksum_array[task->index].file = NULL;
             apr_pool_destroy(subpool);
             return APR_EGENERAL;
         }
@@ -69,6 +71,8 @@ static apr_status_t hashing_worker_callback(void *hashing_ctx, void *task_data)
         }
     }
     else {
+        /* Without a hash the file cannot be grouped with others: leave it out. */
+        fsize->chksum_array[task->index].file = NULL;
         if (is_option_set(h_ctx->conf->mask, OPTION_VERBO)) {
             (void) fprintf(stderr, "\nskipping %s because: %s\n", file->path, apr_strerror(status, errbuf, ERR_BUF_SIZE));
         }
@@ -253,11 +257,17 @@ static apr_status_t collect_hashing_results(ft_conf_t *conf, napr_heap_t *tmp_he
         }
 
         if (should_insert) {
+            apr_uint32_t nb_hashed = 0;
+
+            /* Keep only the files that were hashed: the others have no valid hash to be reported with. */
             for (apr_uint32_t idx = 0; idx < fsize->nb_files; idx++) {
                 if (NULL != fsize->chksum_array[idx].file) {
                     napr_heap_insert(tmp_heap, fsize->chksum_array[idx].file);
+                    fsize->chksum_array[nb_hashed++] = fsize->chksum_array[idx];
                 }
             }
+            fsize->nb_files = nb_hashed;
+            fsize->nb_checksumed = nb_hashed;
         }
     }
 
-- 
2.43.0


From 69c0c79e65a5cb7eb67cc8262b75712fc7be2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:36 +0000
Subject: [PATCH 10/43] fix: a scanned file is not an archive member,
 initialise its subpath

---
 src/ft_traverse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 129dfc4..b6dfabf 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -66,6 +66,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
         ft_file_t *file = apr_palloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
+        file->subpath = NULL;
         file->size = finfo->size;
         file->mtime = finfo->mtime;
         file->prioritized = ((conf->p_path) && (strlen(filename) >= conf->p_path_len) &&
-- 
2.43.0


From 83582fa7a3d4715bb4320da00257aa90f48e7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:36 +0000
Subject: [PATCH 11/43] fix: apply the accept expression to files only, and
 no-recurse to links to directories

---
 src/ft_traverse.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index b6dfabf..079a41c 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -93,8 +93,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
 static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
-    if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||
-        (conf->wl_regex && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
+    if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
         return APR_SUCCESS;
     }
 
@@ -167,9 +166,18 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     }
 
     if (finfo.filetype == APR_DIR) {
+        /* stats is NULL for the paths given by the user; a link to a directory is known as a directory only here. */
+        if (stats != NULL && !is_option_set(conf->mask, OPTION_RECSD)) {
+            return APR_SUCCESS;
+        }
         return process_directory(filename, conf, gc_pool, stats, parent_ctx);
     }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
+        int ovector[MATCH_VECTOR_SIZE];
+        /* The accept expression selects files: directories are entered whatever their name. */
+        if (stats != NULL && conf->wl_regex && pcre_exec(conf->wl_regex, NULL, filename, (int) strlen(filename), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0) {
+            return APR_SUCCESS;
+        }
         return process_file(filename, &finfo, conf);
     }
 
-- 
2.43.0


From b5b971e83897d1f27f8b8e8c823ac345d8567351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:36 +0000
Subject: [PATCH 12/43] fix: an entry that cannot be examined does not end the
 scan of its directory

---
 src/ft_traverse.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 079a41c..71869b9 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -25,10 +25,11 @@ static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_c
     apr_status_t status = apr_stat(finfo, filename, statmask, pool);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
-        if (is_option_set(conf->mask, OPTION_FSYML) && (finfo->filetype & APR_LNK)) {
+        if (is_option_set(conf->mask, OPTION_FSYML) && APR_SUCCESS == apr_stat(finfo, filename, APR_FINFO_TYPE | APR_FINFO_LINK, pool) && APR_LNK == finfo->filetype) {
             if (is_option_set(conf->mask, OPTION_VERBO)) {
                 (void) fprintf(stderr, "Skipping : [%s] (broken link)\n", filename);
             }
+            finfo->filetype = APR_NOFILE;
             return APR_SUCCESS;
         }
         DEBUG_ERR("error calling apr_stat on filename %s : %s", filename, apr_strerror(status, errbuf, ERR_BUF_SIZE));
@@ -131,7 +132,11 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
         }
     }
 
-    while (apr_dir_read(&finfo, APR_FINFO_NAME | APR_FINFO_TYPE, dir) == APR_SUCCESS && finfo.name != NULL) {
+    /* APR_INCOMPLETE: the entry was read, only its type could not be determined. */
+    while (((status = apr_dir_read(&finfo, APR_FINFO_NAME | APR_FINFO_TYPE, dir)) == APR_SUCCESS || status == APR_INCOMPLETE) && finfo.name != NULL) {
+        if (status == APR_INCOMPLETE && !(finfo.valid & APR_FINFO_TYPE)) {
+            finfo.filetype = APR_UNKFILE;
+        }
         if (napr_hash_search(conf->ig_files, finfo.name, strlen(finfo.name), NULL) != NULL || (finfo.name[0] == '.' && !is_option_set(conf->mask, OPTION_SHOW_HIDDEN))) {
             continue;
         }
@@ -140,14 +145,12 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
         }
 
         char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? "" : "/", finfo.name, NULL);
-        status = process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
-        if (status != APR_SUCCESS) {
-            break;
-        }
+        /* An entry that cannot be examined has been reported, go on with the others. */
+        (void) process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
     }
 
     apr_dir_close(dir);
-    return status;
+    return APR_SUCCESS;
 }
 
 static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, apr_pool_t *gc_pool, struct stats const *stats, ft_ignore_context_t *parent_ctx)
-- 
2.43.0


From 1e99a2faf6c62ac77a76b2290ffcf16a13f18c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:36 +0000
Subject: [PATCH 13/43] fix: do not enter a directory again through a link to
 itself or to a parent

---
 src/ft_traverse.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 71869b9..c9d4117 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -17,7 +17,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
 
 static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *pool)
 {
-    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT;
+    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT | APR_FINFO_IDENT;
     if (!is_option_set(conf->mask, OPTION_FSYML)) {
         statmask |= APR_FINFO_LINK;
     }
@@ -91,18 +91,14 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     return APR_SUCCESS;
 }
 
-static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
+static apr_status_t process_directory_entry(const char *fullname, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
     if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
         return APR_SUCCESS;
     }
 
-    struct stats child;
-    child.parent = stats;
-    child.stat = *finfo;
-
-    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, &child, current_ctx);
+    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, stats, current_ctx);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error recursively calling traverse_recursive: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
@@ -146,7 +142,7 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
 
         char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? "" : "/", finfo.name, NULL);
         /* An entry that cannot be examined has been reported, go on with the others. */
-        (void) process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
+        (void) process_directory_entry(fullname, conf, gc_pool, stats, current_ctx);
     }
 
     apr_dir_close(dir);
@@ -173,7 +169,17 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
         if (stats != NULL && !is_option_set(conf->mask, OPTION_RECSD)) {
             return APR_SUCCESS;
         }
-        return process_directory(filename, conf, gc_pool, stats, parent_ctx);
+        /* A link that leads back to a directory being scanned must not be entered again. */
+        for (const struct stats *ancestor = stats; ancestor != NULL; ancestor = ancestor->parent) {
+            if (ancestor->stat.inode == finfo.inode && ancestor->stat.device == finfo.device) {
+                return APR_SUCCESS;
+            }
+        }
+
+        struct stats self;
+        self.parent = stats;
+        self.stat = finfo;
+        return process_directory(filename, conf, gc_pool, &self, parent_ctx);
     }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
         int ovector[MATCH_VECTOR_SIZE];
-- 
2.43.0


From cad3bf6bcc22d3fe001c97d736a7544ca53ecd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 14/43] fix: size the regex buffer for the pattern instead of
 overflowing 4096 bytes

---
 src/ft_ignore.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 823cb51..0ba695c 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -28,7 +28,9 @@
 
 enum
 {
-    INITIAL_PATTERNS_CAPACITY = 16
+    INITIAL_PATTERNS_CAPACITY = 16,
+    MAX_PCRE_EXPANSION = 6,     /* The longest regex text one character of a pattern is converted to. */
+    MAX_PCRE_ANCHORS = 16       /* The start and end anchors, and the final nul. */
 };
 
 /**
@@ -273,7 +275,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
 
 static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int *flags)
 {
-    char *result = apr_pcalloc(pool, MAX_PATTERN_LEN);
+    char *result = apr_pcalloc(pool, strlen(pattern) * MAX_PCRE_EXPANSION + MAX_PCRE_ANCHORS);
     char *result_cursor = result;
     struct pcre_anchor_params_t anchor_params = { 0 };
     const char *pattern_cursor = handle_negation_and_slashes(pattern, flags, &anchor_params.starts_with_slash);
-- 
2.43.0


From e4fb20c1a8561dc6afa210608b238d4b0f554c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 15/43] fix: remove trailing white space from ignore patterns

---
 src/ft_ignore.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 0ba695c..24e0e84 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -318,6 +318,7 @@ ft_ignore_context_t *ft_ignore_context_create(apr_pool_t *pool, ft_ignore_contex
 apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pattern_str)
 {
     const char *trimmed = NULL;
+    apr_size_t len = 0;
     unsigned int flags = 0;
     char *regex_str = NULL;
     pcre *regex = NULL;
@@ -327,7 +328,7 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
 
     /* Trim whitespace */
     trimmed = pattern_str;
-    while (isspace(*trimmed)) {
+    while (isspace((unsigned char) *trimmed)) {
         trimmed++;
     }
 
@@ -336,6 +337,20 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
         return APR_SUCCESS;
     }
 
+    /* Drop trailing white space, unless it is quoted with a backslash */
+    len = strlen(trimmed);
+    while (len > 0 && isspace((unsigned char) trimmed[len - 1])) {
+        apr_size_t nb_backslashes = 0;
+        while (nb_backslashes + 1 < len && trimmed[len - 2 - nb_backslashes] == '\\') {
+            nb_backslashes++;
+        }
+        if (nb_backslashes % 2 != 0) {
+            break;
+        }
+        len--;
+    }
+    trimmed = apr_pstrmemdup(ctx->pool, trimmed, len);
+
     /* Convert glob to regex */
     regex_str = ft_glob_to_pcre(trimmed, ctx->pool, &flags);
 
-- 
2.43.0


From 7420906c5e59cd6c5034964fd23e11412497f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 16/43] fix: anchor ignore patterns that contain a slash, as
 gitignore does

---
 src/ft_ignore.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 24e0e84..50de08f 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -94,6 +94,13 @@ static const char *handle_negation_and_slashes(const char *pattern, unsigned int
         *flags |= FT_IGNORE_DIR_ONLY;
     }
 
+    /* A slash inside the pattern anchors it too */
+    for (const char *inner = pattern_cursor; inner < end; inner++) {
+        if (*inner == '/') {
+            *starts_with_slash = 1;
+        }
+    }
+
     return pattern_cursor;
 }
 
-- 
2.43.0


From 9cf210b3e51bce77c354e4968770e1c156580514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 17/43] fix: let only a whole '**' component of an ignore
 pattern span directories

---
 src/ft_ignore.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 50de08f..79daec5 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -159,14 +159,18 @@ static void set_pcre_anchors(char **result_cursor, const struct pcre_anchor_para
  * @brief Handles the conversion of a glob star (`*`) or double-star (`**`)
  * into its PCRE equivalent.
  *
+ * @param pattern_start The start of the glob pattern's body.
  * @param pattern_cursor A pointer to the current position in the glob pattern.
  * @param result_cursor A pointer to the current position in the result buffer.
  */
-static void handle_star(const char **pattern_cursor, char **result_cursor)
+static void handle_star(const char *pattern_start, const char **pattern_cursor, char **result_cursor)
 {
-    if (*(*pattern_cursor + 1) == '*') {
-        /* Double star: ** */
-        if (*(*pattern_cursor + 2) == '/') {
+    const char *cursor = *pattern_cursor;
+
+    /* Only a double star that makes a whole path component spans directories */
+    if (cursor[1] == '*' && (cursor[2] == '/' || cursor[2] == '\0') && (cursor == pattern_start || cursor[-1] == '/')) {
+        /* Double star: ** (when the slash ends the pattern it only says that directories are meant) */
+        if (cursor[2] == '/' && cursor[3] != '\0') {
             /* * *//* pattern: matches zero or more directory levels */
             append_pcre_sequence(result_cursor, "(.*/)?");
             *pattern_cursor += 3;
@@ -242,6 +246,8 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
  */
 static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result_cursor, unsigned int flags)
 {
+    const char *pattern_start = *pattern_cursor;
+
     while (**pattern_cursor) {
         /* Stop if we hit a trailing slash for a directory-only pattern */
         if (**pattern_cursor == '/' && (flags & FT_IGNORE_DIR_ONLY) && *(*pattern_cursor + 1) == '\0') {
@@ -257,7 +263,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
             *pattern_cursor += 2;
         }
         else if (**pattern_cursor == '*') {
-            handle_star(pattern_cursor, result_cursor);
+            handle_star(pattern_start, pattern_cursor, result_cursor);
         }
         else if (**pattern_cursor == '?') {
             handle_question_mark(pattern_cursor, result_cursor);
-- 
2.43.0


From 673ed4fe4ec8c0c4084ce4af9757920170e1a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 18/43] fix: quoted characters and bracket expressions of
 ignore patterns match what gitignore says

---
 src/ft_ignore.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 79daec5..2321189 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -120,6 +120,23 @@ static void append_pcre_sequence(char **cursor, const char *sequence)
     *cursor += strlen(sequence);
 }
 
+/**
+ * @brief Appends a character that must match itself.
+ *
+ * A backslash makes any character but a letter or a digit literal; before
+ * those it would introduce a PCRE escape sequence such as \\d.
+ *
+ * @param cursor A pointer to the current position in the result buffer.
+ * @param character The character to append.
+ */
+static void append_quoted_char(char **cursor, char character)
+{
+    if (!isalnum((unsigned char) character)) {
+        *(*cursor)++ = '\\';
+    }
+    *(*cursor)++ = character;
+}
+
 /**
  * @brief Sets the start and end anchors for the PCRE regex.
  *
@@ -209,7 +226,7 @@ static void handle_question_mark(const char **pattern_cursor, char **result_curs
 static void handle_char_class(const char **pattern_cursor, char **result_cursor)
 {
     char *cursor = *result_cursor;
-    *cursor++ = '[';
+    append_pcre_sequence(&cursor, "(?!/)[");    /* a class never matches a slash */
     (*pattern_cursor)++;        // Move past opening `[`
 
     if (**pattern_cursor == '!' || **pattern_cursor == '^') {
@@ -217,10 +234,17 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
         (*pattern_cursor)++;
     }
 
+    /* A closing bracket in first position stands for itself */
+    if (**pattern_cursor == ']') {
+        *cursor++ = '\\';
+        *cursor++ = *(*pattern_cursor)++;
+    }
+
     while (**pattern_cursor && **pattern_cursor != ']') {
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
-            *cursor++ = '\\';
             (*pattern_cursor)++;
+            append_quoted_char(&cursor, *(*pattern_cursor)++);
+            continue;
         }
         *cursor++ = *(*pattern_cursor)++;
     }
@@ -256,10 +280,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
 
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
             /* Handle escaped characters */
-            char *cursor = *result_cursor;
-            *cursor++ = '\\';
-            *cursor++ = *(*pattern_cursor + 1);
-            *result_cursor = cursor;
+            append_quoted_char(result_cursor, *(*pattern_cursor + 1));
             *pattern_cursor += 2;
         }
         else if (**pattern_cursor == '*') {
@@ -271,7 +292,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
         else if (**pattern_cursor == '[') {
             handle_char_class(pattern_cursor, result_cursor);
         }
-        else if (strchr(".^$+{}()|", **pattern_cursor)) {
+        else if (strchr(".^$+{}()|\\", **pattern_cursor)) {
             /* Escape PCRE metacharacters */
             char *cursor = *result_cursor;
             *cursor++ = '\\';
-- 
2.43.0


From aaa21cbee6caf1f2a8ba1488b423a39bff642185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 19/43] fix: ignore patterns match whole names, line feeds
 included

---
 src/ft_ignore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 2321189..1766810 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -389,7 +389,7 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     regex_str = ft_glob_to_pcre(trimmed, ctx->pool, &flags);
 
     /* Compile regex */
-    regex = pcre_compile(regex_str, 0, &error, &erroffset, NULL);
+    regex = pcre_compile(regex_str, PCRE_DOTALL | PCRE_DOLLAR_ENDONLY, &error, &erroffset, NULL);
     if (!regex) {
         DEBUG_ERR("Failed to compile pattern '%s': %s", trimmed, error);
         return APR_EGENERAL;
-- 
2.43.0


From 9e6a565856155139a6f7e1b78e224d958cad43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 20/43] fix: skip overlong lines of ignore files instead of
 taking their pieces as patterns

---
 src/ft_ignore.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 1766810..511ed09 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -425,6 +425,13 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
             line[len - 1] = '\0';
             len--;
         }
+        else if (len == sizeof(line) - 1) {
+            /* Too long to be a pattern: skip the whole line, its pieces are not patterns */
+            while (len == sizeof(line) - 1 && line[len - 1] != '\n' && apr_file_gets(line, (int) sizeof(line), file) == APR_SUCCESS) {
+                len = strlen(line);
+            }
+            continue;
+        }
         if (len > 0 && line[len - 1] == '\r') {
             line[len - 1] = '\0';
         }
-- 
2.43.0


From 70e6a937dc32db2e18216d4854b44c0786380194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 21/43] fix: rules of the nearest ignore file override those of
 the directories above

---
 src/ft_ignore.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 511ed09..1358402 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -456,9 +456,11 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
     /* Walk up the context hierarchy */
     for (current_ctx = ctx; current_ctx != NULL; current_ctx = current_ctx->parent) {
         int index = 0;
+        apr_size_t base_len = current_ctx->base_dir_len;
 
         /* Calculate relative path from this context's base_dir */
-        if (strncmp(fullpath, current_ctx->base_dir, current_ctx->base_dir_len) == 0) {
+        if (strncmp(fullpath, current_ctx->base_dir, base_len) == 0 &&
+            (base_len == 0 || current_ctx->base_dir[base_len - 1] == '/' || fullpath[base_len] == '/' || fullpath[base_len] == '\0')) {
             relative_path = fullpath + current_ctx->base_dir_len;
             /* Skip leading slash */
             while (*relative_path == '/') {
@@ -494,6 +496,11 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
                 /* Don't break - continue checking for later patterns */
             }
         }
+
+        /* The nearest ignore file that says something about the path decides */
+        if (result != FT_IGNORE_MATCH_NONE) {
+            break;
+        }
     }
 
     return result;
-- 
2.43.0


From 0241706c5234d0acfc5f7d19ffbb0edbcd9b9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:29 +0000
Subject: [PATCH 22/43] verif: FTWIN_VERIF_PATTERN_LEN sets a small ignore line
 buffer

---
 src/ft_ignore.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 1358402..81bcd3b 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -39,7 +39,11 @@ enum
  * This constant defines the maximum buffer size for reading and processing
  * a single pattern from a .gitignore file.
  */
+#ifdef FTWIN_VERIF_PATTERN_LEN
+enum { MAX_PATTERN_LEN = FTWIN_VERIF_PATTERN_LEN };
+#else
 static const size_t MAX_PATTERN_LEN = 4096;
+#endif
 
 /**
  * Convert Git glob pattern to PCRE regex
-- 
2.43.0


From a438c35c4bfa614ab5e12239e7aa419d64e39bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:11 +0000
Subject: [PATCH 23/43] fix: wait for the thread pool again after a spurious
 wake-up

A condition wait can return without having been signalled; napr_threadpool_wait
then returned while tasks were still queued or running and dropped the queue.
---
 src/napr_threadpool.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index f464623..efdacf8 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -272,7 +272,6 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
 {
     char errbuf[ERR_BUF_SIZE] = { 0 };
     apr_status_t status = APR_SUCCESS;
-    int list_size = 0;
 
     /* DEBUG_DBG("Called"); */
     status = apr_thread_mutex_lock(threadpool->threadpool_mutex);
@@ -280,8 +279,8 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
         DEBUG_ERR("error calling apr_thread_mutex_lock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
-    list_size = (int) napr_list_size(threadpool->list);
-    if ((0 != list_size) || (threadpool->nb_waiting != threadpool->nb_thread)) {
+    /* A condition wait may also return by itself, so look again each time. */
+    while (!(threadpool->ended & 0x1) && ((0 != napr_list_size(threadpool->list)) || (threadpool->nb_waiting != threadpool->nb_thread))) {
         /* DEBUG_DBG("After lock before wait"); */
         /*
          * Because the caller of this function has added all data we are now
@@ -296,9 +295,9 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
             return status;
         }
         /* DEBUG_DBG("Awake"); */
-        /* Because all data have been processed, we are no more running  */
-        threadpool->run &= 0x0;
     }
+    /* Because all data have been processed, we are no more running  */
+    threadpool->run &= 0x0;
     /*
      * garbage collecting under lock protection to avoid list manipulation
      * during this freeing.
-- 
2.43.0


From cf7c10c71655c3dcfe86cef0f7310d03d5ae4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:35 +0000
Subject: [PATCH 24/43] fix: refuse entries larger than a page instead of
 wrapping their size around

---
 src/napr_db_tree.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 89865aa..3205527 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -22,7 +22,7 @@
  * @param key2_size Size of second key
  * @return <0 if key1 < key2, 0 if equal, >0 if key1 > key2
  */
-static int db_key_compare(const uint8_t *key1_data, uint16_t key1_size, const uint8_t *key2_data, uint16_t key2_size)
+static int db_key_compare(const uint8_t *key1_data, size_t key1_size, const uint8_t *key2_data, size_t key2_size)
 {
     /* Compare the common length */
     size_t min_size = (key1_size < key2_size) ? key1_size : key2_size;
@@ -91,13 +91,13 @@ apr_status_t db_page_search(DB_PageHeader *page, const napr_db_val_t *key, uint1
             /* Branch page */
             DB_BranchNode *node = db_page_branch_node(page, mid);
             uint8_t *node_key = db_branch_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else if (page->flags & P_LEAF) {
             /* Leaf page */
             DB_LeafNode *node = db_page_leaf_node(page, mid);
             uint8_t *node_key = db_leaf_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else {
             /* Invalid page type */
@@ -398,7 +398,7 @@ apr_status_t db_page_get_writable(napr_db_txn_t *txn, DB_PageHeader *original_pa
 apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t child_pgno)
 {
     uint16_t *slots = NULL;
-    uint16_t node_size = 0;
+    size_t node_size = 0;
     uint16_t free_space = 0;
     uint16_t new_offset = 0;
     uint16_t idx = 0;
@@ -413,11 +413,17 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
         if (!data) {
             return APR_EINVAL;
         }
-        node_size = (uint16_t) (sizeof(DB_LeafNode) + key->size + data->size);
+        if (key->size > PAGE_SIZE || data->size > PAGE_SIZE) {
+            return APR_ENOSPC;
+        }
+        node_size = sizeof(DB_LeafNode) + key->size + data->size;
     }
     else if (page->flags & P_BRANCH) {
         /* Branch node: DB_BranchNode + key */
-        node_size = (uint16_t) (sizeof(DB_BranchNode) + key->size);
+        if (key->size > PAGE_SIZE) {
+            return APR_ENOSPC;
+        }
+        node_size = sizeof(DB_BranchNode) + key->size;
     }
     else {
         return APR_EINVAL;
@@ -438,7 +444,7 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
     }
 
     /* Allocate space for new node (grows downward from upper) */
-    new_offset = page->upper - node_size;
+    new_offset = (uint16_t) (page->upper - node_size);
 
     /* Create the new node */
     if (page->flags & P_LEAF) {
-- 
2.43.0


From 61326464b8e4f21bcecc04e9380a0b0bf8433624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 25/43] fix: split pages where both halves fit and file every
 key on the side its divider says

---
 src/napr_db.c          |  67 +------
 src/napr_db_internal.h |  14 ++
 src/napr_db_tree.c     | 408 +++++++++++++++++++++--------------------
 3 files changed, 233 insertions(+), 256 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 59b99cd..27b4705 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -884,22 +884,9 @@ static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t
         return status;
     }
 
-    DB_PageHeader *left_page = leaf_page;
     DB_PageHeader *right_page = NULL;
     napr_db_val_t divider_key = { 0 };
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    apr_status_t search_status = db_page_search(left_page, &current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, &current_key, &index);
-        status = db_page_insert(right_page, index, &current_key, &current_data, 0);
-    }
-    else {
-        status = db_page_insert(left_page, index, &current_key, &current_data, 0);
-    }
+    status = db_split_insert(txn, leaf_page, &current_key, &current_data, 0, &right_page, &divider_key);
     if (status != APR_SUCCESS) {
         return status;
     }
@@ -1543,24 +1530,10 @@ static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_pa
 {
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     apr_status_t status;
-    DB_PageHeader *left_page = leaf_page;
     DB_PageHeader *right_page = NULL;
     napr_db_val_t divider_key = { 0 };
-    uint16_t index = 0;
 
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    apr_status_t search_status = db_page_search(left_page, current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, current_key, &index);
-        status = db_page_insert(right_page, index, current_key, current_data, 0);
-    }
-    else {
-        status = db_page_insert(left_page, index, current_key, current_data, 0);
-    }
+    status = db_split_insert(txn, leaf_page, current_key, current_data, 0, &right_page, &divider_key);
     if (status != APR_SUCCESS) {
         return status;
     }
@@ -1596,6 +1569,9 @@ static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *pa
         }
 
         (void) db_page_search(parent_page, current_key, &index);
+        if (index == 0) {
+            index = 1;          /* The first child covers everything below the second key */
+        }
 
         status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
         if (status == APR_SUCCESS) {
@@ -1606,20 +1582,7 @@ static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *pa
             return status;
         }
 
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);
-        }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
-        }
-
+        status = db_split_insert(txn, parent_page, current_key, NULL, *right_child_pgno, &right_page, &divider_key);
         if (status != APR_SUCCESS) {
             return status;
         }
@@ -1724,6 +1687,9 @@ static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pg
         }
 
         (void) db_page_search(parent_page, current_key, &index);
+        if (index == 0) {
+            index = 1;          /* The first child covers everything below the second key */
+        }
 
         status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
         if (status == APR_SUCCESS) {
@@ -1734,20 +1700,7 @@ static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pg
             return status;
         }
 
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        }
-
+        status = db_split_insert(txn, parent_page, current_key, NULL, *pgnos.right_child_pgno, &right_page, &divider_key);
         if (status != APR_SUCCESS) {
             return status;
         }
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index c1c8d29..0ba9f78 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -593,6 +593,20 @@ apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index);
 apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out);
 apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out);
 
+/**
+ * @brief Split a page and insert a new entry into the proper half.
+ *
+ * @param txn Write transaction handle
+ * @param left_page The original full page (will be modified in-place)
+ * @param key Key to insert (not in the page)
+ * @param data Value to insert (NULL for branch nodes with child_pgno)
+ * @param child_pgno Child page number (for branch nodes, 0 for leaf nodes)
+ * @param right_page_out Output: pointer to the newly allocated right sibling page
+ * @param divider_key_out Output: the divider key to insert into parent
+ * @return APR_SUCCESS on success, APR_ENOSPC if two pages cannot hold the entries, error code otherwise
+ */
+apr_status_t db_split_insert(napr_db_txn_t *txn, DB_PageHeader *left_page, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t child_pgno, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out);
+
 /**
  * @brief Get the oldest active reader TXNID from the reader tracking table.
  *
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 3205527..9148414 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -541,44 +541,63 @@ apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index)
 }
 
 /**
- * @brief Split a leaf page when it becomes full.
+ * @brief Space an entry of a page takes, without its slot.
+ */
+static size_t db_page_node_size(DB_PageHeader *page, uint16_t index)
+{
+    if (page->flags & P_LEAF) {
+        DB_LeafNode *node = db_page_leaf_node(page, index);
+        return sizeof(DB_LeafNode) + node->key_size + node->data_size;
+    }
+    return sizeof(DB_BranchNode) + db_page_branch_node(page, index)->key_size;
+}
+
+/**
+ * @brief Append entries [first..last) of a page to another one.
+ */
+static void db_page_append_entries(DB_PageHeader *dest, DB_PageHeader *src, uint16_t first, uint16_t last)
+{
+    uint16_t *slots = db_page_slots(dest);
+    uint16_t idx = 0;
+
+    for (idx = first; idx < last; idx++) {
+        size_t node_size = db_page_node_size(src, idx);
+        uint16_t new_offset = (uint16_t) (dest->upper - node_size);
+
+        memcpy((char *) dest + new_offset, (char *) src + db_page_slot_offset(src, idx), node_size);
+        slots[dest->num_keys] = new_offset;
+        dest->num_keys++;
+        dest->lower += sizeof(uint16_t);
+        dest->upper = new_offset;
+    }
+}
+
+/**
+ * @brief Move the entries of a page from split_point onwards to a new right sibling.
  *
- * This function implements the B+ tree leaf split operation:
- * 1. Allocate a new page for the right sibling
- * 2. Find the split point (median)
- * 3. Move upper half of entries to the new page
- * 4. Update both page headers
- * 5. Return the divider key (first key of right page)
+ * The entries that remain are packed again, so that all the space of the moved
+ * ones is free in the left page.
  *
  * @param txn Write transaction handle
- * @param left_page The original full page (modified in-place)
+ * @param left_page The original page (modified in-place)
+ * @param split_point Number of entries that stay in the left page
  * @param right_page_out Output: newly allocated right sibling page
- * @param divider_key_out Output: divider key for parent insertion
- * @return APR_SUCCESS on success, error code on failure
+ * @return APR_SUCCESS on success, error code on failure (left page unchanged)
  */
-apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
+static apr_status_t db_split_page_at(napr_db_txn_t *txn, DB_PageHeader *left_page, uint16_t split_point, DB_PageHeader **right_page_out)
 {
     apr_status_t status = APR_SUCCESS;
     DB_PageHeader *right_page = NULL;
+    DB_PageHeader *old_page = NULL;
     pgno_t right_pgno = 0;
     pgno_t *pgno_key = NULL;
-    uint16_t split_point = 0;
-    uint16_t idx = 0;
-    uint16_t *right_slots = NULL;
-    DB_LeafNode *first_right_node = NULL;
-
-    if (!txn || !left_page || !right_page_out || !divider_key_out) {
-        return APR_EINVAL;
-    }
-
-    /* Verify this is a leaf page */
-    if (!(left_page->flags & P_LEAF)) {
-        return APR_EINVAL;
-    }
 
-    /* Verify this is a write transaction */
-    if (txn->flags & NAPR_DB_RDONLY) {
-        return APR_EINVAL;
+    /* Allocate memory for the right page, the copy of the old one and the hash key */
+    right_page = apr_pcalloc(txn->pool, PAGE_SIZE);
+    old_page = apr_palloc(txn->pool, PAGE_SIZE);
+    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
+    if (!right_page || !old_page || !pgno_key) {
+        return APR_ENOMEM;
     }
 
     /* Allocate a new page for the right sibling */
@@ -587,123 +606,176 @@ apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Page
         return status;
     }
 
-    /* Allocate memory for the right page */
-    right_page = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!right_page) {
-        return APR_ENOMEM;
-    }
-
     /* Initialize the right page header */
     right_page->pgno = right_pgno;
-    right_page->flags = P_LEAF;
+    right_page->flags = left_page->flags;
     right_page->num_keys = 0;
     right_page->lower = sizeof(DB_PageHeader);
     right_page->upper = PAGE_SIZE;
     right_page->padding = 0;
 
-    /* Determine split point (median) */
-    split_point = left_page->num_keys / 2;
+    /* Distribute the entries */
+    memcpy(old_page, left_page, PAGE_SIZE);
+    left_page->num_keys = 0;
+    left_page->lower = sizeof(DB_PageHeader);
+    left_page->upper = PAGE_SIZE;
+    db_page_append_entries(left_page, old_page, 0, split_point);
+    db_page_append_entries(right_page, old_page, split_point, old_page->num_keys);
 
-    /* Get right page slot array */
-    right_slots = db_page_slots(right_page);
+    /* Store the right page in dirty pages hash */
+    *pgno_key = right_pgno;
+    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), right_page);
 
-    /* Move entries from split_point onwards to the right page */
-    for (idx = split_point; idx < left_page->num_keys; idx++) {
-        DB_LeafNode *src_node = db_page_leaf_node(left_page, idx);
-        uint16_t node_size = sizeof(DB_LeafNode) + src_node->key_size + src_node->data_size;
-        uint16_t new_offset = 0;
-        DB_LeafNode *dest_node = NULL;
-        uint16_t right_idx = idx - split_point;
+    *right_page_out = right_page;
+    return APR_SUCCESS;
+}
 
-        /* Allocate space in right page (grows downward from upper) */
-        new_offset = right_page->upper - node_size;
-        dest_node = (DB_LeafNode *) ((char *) right_page + new_offset);
+/**
+ * @brief Get the first key of a page, which divides it from its left sibling.
+ */
+static void db_page_first_key(DB_PageHeader *page, napr_db_val_t *key_out)
+{
+    if (page->flags & P_LEAF) {
+        DB_LeafNode *node = db_page_leaf_node(page, 0);
+        key_out->data = db_leaf_node_key(node);
+        key_out->size = node->key_size;
+    }
+    else {
+        DB_BranchNode *node = db_page_branch_node(page, 0);
+        key_out->data = db_branch_node_key(node);
+        key_out->size = node->key_size;
+    }
+}
 
-        /* Copy the node */
-        memcpy(dest_node, src_node, node_size);
+/**
+ * @brief Split a page and insert a new entry into the proper half.
+ *
+ * The split point is the one that balances the space used in both pages with
+ * the new entry in its place, so that the insertion cannot fail after the split.
+ *
+ * @param txn Write transaction handle
+ * @param left_page The original full page (modified in-place)
+ * @param key Key to insert (not in the page)
+ * @param data Value to insert (NULL for branch nodes with child_pgno)
+ * @param child_pgno Child page number (for branch nodes, 0 for leaf nodes)
+ * @param right_page_out Output: newly allocated right sibling page
+ * @param divider_key_out Output: divider key for parent insertion
+ * @return APR_SUCCESS on success, APR_ENOSPC if two pages cannot hold the
+ *         entries (nothing is changed), error code otherwise
+ */
+apr_status_t db_split_insert(napr_db_txn_t *txn, DB_PageHeader *left_page, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t child_pgno, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
+{
+    const size_t capacity = PAGE_SIZE - sizeof(DB_PageHeader);
+    apr_status_t status = APR_SUCCESS;
+    size_t new_size = 0;
+    size_t total = 0;
+    size_t left_size = 0;
+    size_t best_size = 0;
+    uint16_t index = 0;
+    uint16_t best = 0;
+    uint16_t count = 0;
+    uint16_t split_point = 0;
 
-        /* Update right page slot array */
-        right_slots[right_idx] = new_offset;
+    if (!txn || !left_page || !key || !right_page_out || !divider_key_out) {
+        return APR_EINVAL;
+    }
+    if (txn->flags & NAPR_DB_RDONLY) {
+        return APR_EINVAL;
+    }
+    if (key->size > PAGE_SIZE || (data && data->size > PAGE_SIZE)) {
+        return APR_ENOSPC;
+    }
 
-        /* Update right page header */
-        right_page->num_keys++;
-        right_page->lower += sizeof(uint16_t);
-        right_page->upper = new_offset;
+    if (left_page->flags & P_LEAF) {
+        if (!data) {
+            return APR_EINVAL;
+        }
+        new_size = sizeof(DB_LeafNode) + key->size + data->size + sizeof(uint16_t);
+    }
+    else if (left_page->flags & P_BRANCH) {
+        new_size = sizeof(DB_BranchNode) + key->size + sizeof(uint16_t);
+    }
+    else {
+        return APR_EINVAL;
     }
 
-    /* Update left page header to reflect the reduced number of keys */
-    left_page->num_keys = split_point;
-    left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
+    (void) db_page_search(left_page, key, &index);
+    if ((left_page->flags & P_BRANCH) && index == 0) {
+        index = 1;              /* The first child of a branch covers everything below the second key */
+    }
 
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
+    total = new_size;
+    for (count = 0; count < left_page->num_keys; count++) {
+        total += db_page_node_size(left_page, count) + sizeof(uint16_t);
     }
 
-    /* Store the right page in dirty pages hash */
-    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
+    /* Try to leave 'count' entries in the left page, the new one included */
+    for (count = 1; count <= left_page->num_keys; count++) {
+        size_t larger = 0;
+
+        if (count - 1 == index) {
+            left_size += new_size;
+        }
+        else {
+            left_size += db_page_node_size(left_page, count - 1 < index ? count - 1 : count - 2) + sizeof(uint16_t);
+        }
+
+        larger = left_size > total - left_size ? left_size : total - left_size;
+        if (larger <= capacity && (best == 0 || larger < best_size)) {
+            best = count;
+            best_size = larger;
+        }
+    }
+    if (best == 0) {
+        return APR_ENOSPC;
     }
-    *pgno_key = right_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), right_page);
 
-    /* Set divider key (first key of right page) */
-    first_right_node = db_page_leaf_node(right_page, 0);
-    divider_key_out->data = db_leaf_node_key(first_right_node);
-    divider_key_out->size = first_right_node->key_size;
+    split_point = index < best ? best - 1 : best;
+    status = db_split_page_at(txn, left_page, split_point, right_page_out);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
 
-    /* Return the right page */
-    *right_page_out = right_page;
+    if (index < best) {
+        status = db_page_insert(left_page, index, key, data, child_pgno);
+    }
+    else {
+        status = db_page_insert(*right_page_out, index - split_point, key, data, child_pgno);
+    }
+    if (status != APR_SUCCESS) {
+        return status;
+    }
 
+    db_page_first_key(*right_page_out, divider_key_out);
     return APR_SUCCESS;
 }
 
 /**
- * @brief Split a branch page when it becomes full.
+ * @brief Split a leaf page when it becomes full.
  *
- * This function implements the B+ tree branch split operation:
+ * This function implements the B+ tree leaf split operation:
  * 1. Allocate a new page for the right sibling
  * 2. Find the split point (median)
  * 3. Move upper half of entries to the new page
- * 4. CRITICAL: The divider key is "pushed up" to the parent, NOT copied to right page
- * 5. Update both page headers
+ * 4. Update both page headers
+ * 5. Return the divider key (first key of right page)
  *
  * @param txn Write transaction handle
  * @param left_page The original full page (modified in-place)
  * @param right_page_out Output: newly allocated right sibling page
- * @param divider_key_out Output: divider key for parent insertion (pushed up)
+ * @param divider_key_out Output: divider key for parent insertion
  * @return APR_SUCCESS on success, error code on failure
  */
-apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
+apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
 {
     apr_status_t status = APR_SUCCESS;
-    DB_PageHeader *right_page = NULL;
-    pgno_t right_pgno = 0;
-    pgno_t *pgno_key = NULL;
-    uint16_t split_point = 0;
-    uint16_t idx = 0;
-    uint16_t *right_slots = NULL;
-    DB_BranchNode *divider_node = NULL;
 
     if (!txn || !left_page || !right_page_out || !divider_key_out) {
         return APR_EINVAL;
     }
 
-    /* Verify this is a branch page */
-    if (!(left_page->flags & P_BRANCH)) {
+    /* Verify this is a leaf page with something to move */
+    if (!(left_page->flags & P_LEAF) || left_page->num_keys == 0) {
         return APR_EINVAL;
     }
 
@@ -712,117 +784,55 @@ apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Pa
         return APR_EINVAL;
     }
 
-    /* Allocate a new page for the right sibling */
-    status = db_page_alloc(txn, 1, &right_pgno);
+    status = db_split_page_at(txn, left_page, left_page->num_keys / 2, right_page_out);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    /* Allocate memory for the right page */
-    right_page = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!right_page) {
-        return APR_ENOMEM;
-    }
-
-    /* Initialize the right page header */
-    right_page->pgno = right_pgno;
-    right_page->flags = P_BRANCH;
-    right_page->num_keys = 0;
-    right_page->lower = sizeof(DB_PageHeader);
-    right_page->upper = PAGE_SIZE;
-    right_page->padding = 0;
-
-    /* Determine split point (median) */
-    split_point = left_page->num_keys / 2;
-
-    /* Get right page slot array */
-    right_slots = db_page_slots(right_page);
+    db_page_first_key(*right_page_out, divider_key_out);
+    return APR_SUCCESS;
+}
 
-    /* Move entries from split_point onwards to the right page
-     * CRITICAL: In a B+ tree with "minimum key" semantics, we must preserve
-     * all child pointers. The entry at split_point is included in the RIGHT page.
-     * Its key will also be used as the divider pushed to the parent.
-     */
-    for (idx = split_point; idx < left_page->num_keys; idx++) {
-        DB_BranchNode *src_node = db_page_branch_node(left_page, idx);
-        uint16_t node_size = sizeof(DB_BranchNode) + src_node->key_size;
-        uint16_t new_offset = 0;
-        DB_BranchNode *dest_node = NULL;
-        uint16_t right_idx = idx - split_point;
-
-        /* Allocate space in right page (grows downward from upper) */
-        new_offset = right_page->upper - node_size;
-        dest_node = (DB_BranchNode *) ((char *) right_page + new_offset);
-
-        /* Copy the node */
-        memcpy(dest_node, src_node, node_size);
-
-        /* Update right page slot array */
-        right_slots[right_idx] = new_offset;
-
-        /* Update right page header */
-        right_page->num_keys++;
-        right_page->lower += sizeof(uint16_t);
-        right_page->upper = new_offset;
-    }
-
-    /* Update left page header to reflect the reduced number of keys
-     * CRITICAL: For B+tree branches with "minimum key" semantics:
-     * - Left page gets entries [0..split_point-1]
-     * - Right page gets entries [split_point+1..end]
-     * - Entry at split_point is NOT in either page - its key becomes the divider,
-     *   and its child pointer is LOST (which is the bug!)
-     *
-     * TODO: Fix this properly by including split_point in one of the pages
-     */
-    left_page->num_keys = split_point;
-    left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
+/**
+ * @brief Split a branch page when it becomes full.
+ *
+ * This function implements the B+ tree branch split operation:
+ * 1. Allocate a new page for the right sibling
+ * 2. Find the split point (median)
+ * 3. Move upper half of entries to the new page, child pointers included
+ * 4. Update both page headers
+ * 5. Return the divider key (first key of right page) for the parent
+ *
+ * @param txn Write transaction handle
+ * @param left_page The original full page (modified in-place)
+ * @param right_page_out Output: newly allocated right sibling page
+ * @param divider_key_out Output: divider key for parent insertion
+ * @return APR_SUCCESS on success, error code on failure
+ */
+apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
+{
+    apr_status_t status = APR_SUCCESS;
 
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    if (split_point > 0) {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
-    }
-    else {
-        /* Edge case: all entries moved to right */
-        left_page->upper = PAGE_SIZE;
+    if (!txn || !left_page || !right_page_out || !divider_key_out) {
+        return APR_EINVAL;
     }
 
-    /* Set divider key = minimum key of right page (right[0].key)
-     * This will be pushed up to the parent to guide searches.
-     */
-    if (right_page->num_keys > 0) {
-        divider_node = db_page_branch_node(right_page, 0);
-        divider_key_out->data = db_branch_node_key(divider_node);
-        divider_key_out->size = divider_node->key_size;
-    }
-    else {
-        /* This shouldn't happen in a proper split, but handle it */
-        return APR_EGENERAL;
+    /* Verify this is a branch page with something to move */
+    if (!(left_page->flags & P_BRANCH) || left_page->num_keys == 0) {
+        return APR_EINVAL;
     }
 
-    /* Store the right page in dirty pages hash */
-    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
+    /* Verify this is a write transaction */
+    if (txn->flags & NAPR_DB_RDONLY) {
+        return APR_EINVAL;
     }
-    *pgno_key = right_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), right_page);
 
-    /* Return the right page */
-    *right_page_out = right_page;
+    status = db_split_page_at(txn, left_page, left_page->num_keys / 2, right_page_out);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
 
+    db_page_first_key(*right_page_out, divider_key_out);
     return APR_SUCCESS;
 }
 
-- 
2.43.0


From 14d6fc961ce61d34013566bf668ff7d5b86ebd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:25 +0000
Subject: [PATCH 26/43] fix: do not allocate pages beyond the memory map

---
 src/napr_db.c          |  8 ++++++++
 src/napr_db_internal.h |  9 +++++++++
 src/napr_db_tree.c     | 19 ++++++++++++++++++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 27b4705..237871e 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -886,6 +886,9 @@ static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t
 
     DB_PageHeader *right_page = NULL;
     napr_db_val_t divider_key = { 0 };
+    if (!db_room_for_pages(txn, (uint32_t) path_len + 1)) {
+        return APR_ENOSPC;
+    }
     status = db_split_insert(txn, leaf_page, &current_key, &current_data, 0, &right_page, &divider_key);
     if (status != APR_SUCCESS) {
         return status;
@@ -1533,6 +1536,11 @@ static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_pa
     DB_PageHeader *right_page = NULL;
     napr_db_val_t divider_key = { 0 };
 
+    /* Every page of the path may be split, and the root get a parent: no split may be left half done */
+    if (!db_room_for_pages(txn, (uint32_t) path_len + 1)) {
+        return APR_ENOSPC;
+    }
+
     status = db_split_insert(txn, leaf_page, current_key, current_data, 0, &right_page, &divider_key);
     if (status != APR_SUCCESS) {
         return status;
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 0ba9f78..e945cf1 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -527,6 +527,15 @@ apr_status_t db_find_leaf_page_with_path_in_tree(napr_db_txn_t *txn, pgno_t root
  */
 apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out);
 
+/**
+ * @brief Tell whether the memory map has room for more pages.
+ *
+ * @param txn Write transaction handle
+ * @param count Number of pages wanted
+ * @return 1 if the file can be extended by that many pages, 0 otherwise
+ */
+int db_room_for_pages(napr_db_txn_t *txn, uint32_t count);
+
 /**
  * @brief Get a writable copy of a page (Copy-on-Write).
  *
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 9148414..32bd320 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -255,6 +255,20 @@ apr_status_t db_find_leaf_page(napr_db_txn_t *txn, const napr_db_val_t *key, DB_
     return db_find_leaf_page_in_tree(txn, txn->root_pgno, key, leaf_page_out);
 }
 
+/**
+ * @brief Tell whether the memory map has room for more pages.
+ *
+ * @param txn Write transaction handle
+ * @param count Number of pages wanted
+ * @return 1 if the file can be extended by that many pages, 0 otherwise
+ */
+int db_room_for_pages(napr_db_txn_t *txn, uint32_t count)
+{
+    pgno_t map_pages = txn->env->mapsize / PAGE_SIZE;
+
+    return txn->new_last_pgno < map_pages && count < map_pages - txn->new_last_pgno;
+}
+
 /**
  * @brief Allocate new pages in a write transaction.
  *
@@ -293,7 +307,10 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
         /* If reclamation failed (APR_NOTFOUND or error), fall through to file extension */
     }
 
-    /* Fall back to extending the file (original behavior) */
+    /* Fall back to extending the file (original behavior), within the memory map */
+    if (!db_room_for_pages(txn, count)) {
+        return APR_ENOSPC;
+    }
     first_pgno = txn->new_last_pgno + 1;
     txn->new_last_pgno += count;
 
-- 
2.43.0


From a58e59cd725d3f71de57b2628d600214706e7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:47 +0000
Subject: [PATCH 27/43] fix: refuse keys two of which no branch page holds, and
 keep the old entry when its update does not fit

---
 src/napr_db.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 237871e..d13c009 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1436,6 +1436,7 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
     napr_db_val_t current_key;
     napr_db_val_t current_data;
     pgno_t right_child_pgno = 0;
+    char old_leaf[PAGE_SIZE];
 
     /* Validate inputs */
     if (!txn || !key || !data) {
@@ -1451,6 +1452,11 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return APR_EACCES;
     }
 
+    /* A branch page must be able to hold any two keys */
+    if (key->size > (PAGE_SIZE - sizeof(DB_PageHeader)) / 2 - sizeof(DB_BranchNode) - sizeof(uint16_t)) {
+        return APR_ENOSPC;
+    }
+
     /* Special case: Empty tree (no root yet) */
     if (txn->root_pgno == 0) {
         return handle_empty_tree_put(txn, &current_key, &current_data);
@@ -1507,6 +1513,7 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
 
     /* If key exists (MVCC update), delete the old entry before inserting new one */
     if (search_status == APR_SUCCESS) {
+        memcpy(old_leaf, leaf_page, PAGE_SIZE);
         status = db_page_delete(leaf_page, index);
         if (status != APR_SUCCESS) {
             return status;
@@ -1526,7 +1533,14 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return status;          /* Other error */
     }
 
-    return handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
+    status = handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
+
+    /* An update that does not fit keeps the old entry */
+    if (status == APR_ENOSPC && search_status == APR_SUCCESS) {
+        memcpy(leaf_page, old_leaf, PAGE_SIZE);
+    }
+
+    return status;
 }
 
 static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data)
-- 
2.43.0


From 44f210c149db1da8e531d428f004829e7f5d7af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:49 +0000
Subject: [PATCH 28/43] fix: let a transaction update several keys of one page

---
 src/napr_db.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index d13c009..0925fb6 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1423,6 +1423,20 @@ static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *pa
 static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key);
 static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data);
 
+/**
+ * @brief Tell whether a key is in the tree this write transaction started from.
+ */
+static int key_is_committed(napr_db_txn_t *txn, const napr_db_val_t *key)
+{
+    napr_db_txn_t snapshot = *txn;
+    napr_db_val_t data = { 0 };
+
+    snapshot.flags = NAPR_DB_RDONLY;
+    snapshot.root_pgno = txn->env->live_meta->root;
+
+    return napr_db_get(&snapshot, key, &data) == APR_SUCCESS;
+}
+
 apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
     pgno_t path[MAX_TREE_DEPTH] = { 0 };
@@ -1472,16 +1486,10 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
     apr_status_t search_status = db_page_search(leaf_page, &current_key, &index);
 
     /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
-     * Same-transaction duplicate: Leaf page is already dirty -> reject with APR_EEXIST
-     * MVCC update: Leaf page is NOT dirty -> allow via CoW */
-    if (search_status == APR_SUCCESS) {
-        pgno_t leaf_pgno = path[path_len - 1];
-        DB_PageHeader *check_dirty = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));
-        if (check_dirty) {
-            /* Same transaction - key already inserted, can't insert again */
-            return APR_EEXIST;
-        }
-        /* Different transaction - will CoW and update below */
+     * Same-transaction duplicate: Key is not in the committed tree -> reject with APR_EEXIST
+     * MVCC update: Key was committed by an earlier transaction -> allow via CoW */
+    if (search_status == APR_SUCCESS && !key_is_committed(txn, &current_key)) {
+        return APR_EEXIST;
     }
 
     /* CoW path propagation: Copy all pages from leaf to root */
-- 
2.43.0


From 4be7c3bd45247f66ddeb939c91a7d3841266f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:50 +0000
Subject: [PATCH 29/43] fix: storing a path twice in one cache transaction
 replaces its entry

---
 src/napr_cache.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index 0ad38c8..91e0a22 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -332,6 +332,8 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
 {
     napr_db_val_t key;
     napr_db_val_t value;
+    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
+    apr_status_t status;
 
     if (!cache || !path || !entry) {
         return APR_EINVAL;
@@ -350,7 +352,16 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
     value.size = sizeof(napr_cache_entry_t);
 
     /* Insert or update in database */
-    return napr_db_put(cache->active_txn, &key, &value);
+    status = napr_db_put(cache->active_txn, &key, &value);
+    if (status == APR_EEXIST) {
+        /* Stored by this very transaction: replace the entry */
+        status = napr_db_del(cache->active_txn, &key, NULL);
+        if (status == APR_SUCCESS) {
+            status = napr_db_put(cache->active_txn, &key, &value);
+        }
+    }
+
+    return status;
 }
 
 /* ========================================================================
-- 
2.43.0


From 4d0ac0e1f96e47a07a45ee9a6a7a138585e436dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:58 +0000
Subject: [PATCH 30/43] fix: keep the key of a free page entry while the entry
 is replaced

---
 src/napr_db.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 0925fb6..6f15e23 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -16,6 +16,7 @@
 #include <apr_proc_mutex.h>
 #include <apr_global_mutex.h>
 #include <apr_portable.h>
+#include <apr_strings.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -1039,11 +1040,18 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     apr_status_t status;
     size_t num_pages = data->size / sizeof(pgno_t);
+    napr_db_val_t own_key = *key;
 
     if (num_pages == 1) {
         return napr_db_del(txn, key, NULL);
     }
 
+    /* Deleting the entry moves what the key points to */
+    own_key.data = apr_pmemdup(txn->pool, key->data, key->size);
+    if (!own_key.data) {
+        return APR_ENOMEM;
+    }
+
     pgno_t *freed_pages = (pgno_t *) data->data;
     pgno_t *remaining_pages = apr_palloc(txn->pool, (num_pages - 1) * sizeof(pgno_t));
     if (!remaining_pages) {
@@ -1053,12 +1061,12 @@ static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const n
 
     napr_db_val_t new_data = {.data = remaining_pages,.size = (num_pages - 1) * sizeof(pgno_t) };
 
-    status = napr_db_del(txn, key, NULL);
+    status = napr_db_del(txn, &own_key, NULL);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    return napr_db_put(txn, key, &new_data);
+    return napr_db_put(txn, &own_key, &new_data);
 }
 
 /**
-- 
2.43.0


From da8d395ba362084083188bd6fe039236de3fb7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:52 +0000
Subject: [PATCH 31/43] fix: write changed pages to new places and free the old
 ones, instead of overwriting live pages

---
 src/napr_db.c          | 162 +++++++++++++++++++++++++++++++++++++----
 src/napr_db_internal.h |  21 ++++++
 src/napr_db_tree.c     |   6 +-
 3 files changed, 170 insertions(+), 19 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 6f15e23..5791d3a 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -911,11 +911,107 @@ static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t
     return handle_root_split_in_tree(txn, path[0], right_child_pgno, &current_key, new_free_db_root_out);
 }
 
+/**
+ * @brief Build the Free DB key of the n-th group of pages freed by a transaction.
+ *
+ * The first group is filed under the TXNID alone, further ones under the TXNID and their number.
+ */
+static void free_db_key(DB_FreeKey *free_key, txnid_t txnid, int group, napr_db_val_t *key)
+{
+    free_key->txnid = txnid;
+    free_key->group = (uint16_t) group;
+    key->data = free_key;
+    key->size = group == 0 ? sizeof(txnid_t) : sizeof(DB_FreeKey);
+}
+
+/**
+ * @brief Copy the Free DB pages that will receive the list of freed pages.
+ */
+static apr_status_t copy_free_db_paths(napr_db_txn_t *txn)
+{
+    const int num_freed = txn->freed_pages->nelts;
+    int group = 0;
+
+    if (txn->free_db_root_pgno == 0) {
+        return APR_SUCCESS;
+    }
+
+    for (group = 0; group * DB_FREE_ENTRY_MAX_PAGES < num_freed; group++) {
+        DB_FreeKey free_key;
+        napr_db_val_t key = { 0 };
+        pgno_t path[MAX_TREE_DEPTH] = { 0 };
+        uint16_t path_len = 0;
+        DB_PageHeader *page = NULL;
+        apr_status_t status = APR_SUCCESS;
+
+        free_db_key(&free_key, txn->txnid, group, &key);
+        status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, &key, path, &path_len, &page);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+
+        for (int i = (int) path_len - 1; i >= 0; i--) {
+            if (apr_hash_get(txn->dirty_pages, &path[i], sizeof(pgno_t))) {
+                continue;
+            }
+            status = db_page_get_writable(txn, (DB_PageHeader *) ((char *) txn->env->map_addr + (path[i] * PAGE_SIZE)), &page);
+            if (status != APR_SUCCESS) {
+                return status;
+            }
+        }
+    }
+
+    return APR_SUCCESS;
+}
+
+/**
+ * @brief Give every copied page a place of its own.
+ *
+ * The originals belong to the committed state, and to the snapshots of readers:
+ * they must stay as they are until no reader can see them any more. Taking pages
+ * from the Free DB copies some of its own pages in turn.
+ *
+ * @param txn The transaction.
+ * @return APR_SUCCESS or an error code.
+ */
+static apr_status_t relocate_copied_pages(napr_db_txn_t *txn)
+{
+    int done = 0;
+    int covered = 0;
+
+    do {
+        apr_status_t status = APR_SUCCESS;
+
+        covered = txn->freed_pages->nelts;
+        status = copy_free_db_paths(txn);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+
+        for (; done < txn->freed_pages->nelts; done++) {
+            pgno_t old_pgno = APR_ARRAY_IDX(txn->freed_pages, done, pgno_t);
+            DB_PageHeader *dirty_page = apr_hash_get(txn->dirty_pages, &old_pgno, sizeof(pgno_t));
+            pgno_t new_pgno = 0;
+
+            if (!dirty_page) {
+                return APR_EGENERAL;
+            }
+            txn->relocating = 1;
+            status = db_page_alloc(txn, 1, &new_pgno);
+            txn->relocating = 0;
+            if (status != APR_SUCCESS) {
+                return status;
+            }
+            dirty_page->pgno = new_pgno;
+        }
+    } while (txn->freed_pages->nelts != covered);
+
+    return APR_SUCCESS;
+}
+
 static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
 {
-    napr_db_val_t key = { 0 };
-    napr_db_val_t data = { 0 };
-    txnid_t txnid_key = 0;
+    int first = 0;
 
     if (!txn || !new_free_db_root_out) {
         return APR_EINVAL;
@@ -926,18 +1022,37 @@ static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_roo
         return APR_SUCCESS;
     }
 
-    txnid_key = txn->txnid;
-    key.data = &txnid_key;
-    key.size = sizeof(txnid_t);
-    data.data = txn->freed_pages->elts;
-    data.size = (apr_size_t) txn->freed_pages->nelts * txn->freed_pages->elt_size;
+    /* The list of freed pages is final, nothing may be taken from the Free DB any more */
+    txn->no_reclaim = 1;
+
+    for (first = 0; first < txn->freed_pages->nelts; first += DB_FREE_ENTRY_MAX_PAGES) {
+        DB_FreeKey free_key;
+        napr_db_val_t key = { 0 };
+        napr_db_val_t data = { 0 };
+        int count = txn->freed_pages->nelts - first;
+        apr_status_t status = APR_SUCCESS;
+
+        if (count > DB_FREE_ENTRY_MAX_PAGES) {
+            count = DB_FREE_ENTRY_MAX_PAGES;
+        }
+
+        free_db_key(&free_key, txn->txnid, first / DB_FREE_ENTRY_MAX_PAGES, &key);
+        data.data = &APR_ARRAY_IDX(txn->freed_pages, first, pgno_t);
+        data.size = (apr_size_t) count *sizeof(pgno_t);
 
-    pgno_t max_valid_pgno = (txn->flags & NAPR_DB_RDONLY) ? txn->env->live_meta->last_pgno : txn->new_last_pgno;
-    if (txn->free_db_root_pgno == 0 || txn->free_db_root_pgno > max_valid_pgno) {
-        return initialize_empty_free_db(txn, &key, &data, new_free_db_root_out);
+        if (txn->free_db_root_pgno == 0) {
+            status = initialize_empty_free_db(txn, &key, &data, new_free_db_root_out);
+        }
+        else {
+            status = insert_into_free_db(txn, &key, &data, new_free_db_root_out);
+        }
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        txn->free_db_root_pgno = *new_free_db_root_out;
     }
 
-    return insert_into_free_db(txn, &key, &data, new_free_db_root_out);
+    return APR_SUCCESS;
 }
 
 /**
@@ -1012,10 +1127,11 @@ static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_re
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     apr_status_t status;
     txnid_t entry_txnid = 0;
+    int num_spared = 0;
 
     status = napr_db_cursor_get(cursor, key, data, NAPR_DB_FIRST);
     while (status == APR_SUCCESS) {
-        if (key->size != sizeof(txnid_t)) {
+        if (key->size != sizeof(txnid_t) && key->size != sizeof(DB_FreeKey)) {
             status = napr_db_cursor_get(cursor, key, data, NAPR_DB_NEXT);
             continue;
         }
@@ -1024,7 +1140,10 @@ static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_re
 
         if (entry_txnid < oldest_reader_txnid) {
             if (data->size % sizeof(pgno_t) == 0 && data->size > 0) {
-                return APR_SUCCESS;
+                /* While pages are relocated a few entries keep their last page in reserve for splits */
+                if (!txn->relocating || data->size > sizeof(pgno_t) || ++num_spared > DB_FREE_ENTRIES_SPARED) {
+                    return APR_SUCCESS;
+                }
             }
         }
 
@@ -1221,9 +1340,15 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
         return APR_SUCCESS;
     }
 
-    /* Populate the Free DB with freed pages from this transaction FIRST
-     * so that Free DB pages are added to dirty_pages before we update pointers */
+    /* Find new places for the copied pages, then populate the Free DB with the freed
+     * pages from this transaction, so that Free DB pages are added to dirty_pages
+     * before we update pointers */
     pgno_t new_free_db_root = 0;
+    status = relocate_copied_pages(txn);
+    if (status != APR_SUCCESS) {
+        goto cleanup;
+    }
+
     status = populate_free_db(txn, &new_free_db_root);
     if (status != APR_SUCCESS) {
         goto cleanup;
@@ -1236,6 +1361,11 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     update_dirty_page_pointers(txn, pgno_map, &new_root_pgno);
 
+    pgno_t *mapped_free_db_root = apr_hash_get(pgno_map, &new_free_db_root, sizeof(pgno_t));
+    if (mapped_free_db_root) {
+        new_free_db_root = *mapped_free_db_root;
+    }
+
     status = extend_database_file(txn);
     if (status != APR_SUCCESS) {
         goto cleanup;
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index e945cf1..cec7f70 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -269,6 +269,25 @@ typedef struct __attribute__((packed))
                          /**< Key and data (variable length) */
      } DB_LeafNode;
 
+/**
+ * @brief Key of a Free DB entry.
+ *
+ * The pages freed by a transaction are listed in as many entries as needed;
+ * the key of the first one is the TXNID only.
+ */
+     typedef struct __attribute__((packed))
+     DB_FreeKey
+     {
+         txnid_t txnid; /**< Transaction that freed the pages (8 bytes) */
+         uint16_t group;/**< Number of the entry, from 1 (2 bytes) */
+     } DB_FreeKey;
+
+/** Most pages a Free DB entry lists: any two entries fit in a page */
+#define DB_FREE_ENTRY_MAX_PAGES ((int) (((PAGE_SIZE - sizeof(DB_PageHeader)) / 2 - sizeof(uint16_t) - sizeof(DB_LeafNode) - sizeof(DB_FreeKey)) / sizeof(pgno_t)))
+
+/** Free DB entries whose last page is kept for splits when copied pages get new places */
+#define DB_FREE_ENTRIES_SPARED 8
+
 /*
  * In-memory structures
  */
@@ -336,6 +355,8 @@ typedef struct __attribute__((packed))
          /* Free space tracking for write transactions */
          apr_array_header_t *freed_pages;
                                       /**< Array of pgno_t freed during this transaction */
+         int relocating;        /**< Set while copied pages get new places */
+         int no_reclaim;        /**< Set when pages may no longer be taken from the Free DB */
      };
 
 /**
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 32bd320..5d2b6f9 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -297,7 +297,7 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
     }
 
     /* For single-page allocations, try to reclaim from Free DB first */
-    if (count == 1) {
+    if (count == 1 && !txn->no_reclaim) {
         apr_status_t status = db_reclaim_page_from_free_db(txn, &first_pgno);
         if (status == APR_SUCCESS) {
             /* Successfully reclaimed a page from Free DB */
@@ -326,8 +326,8 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
  * - On subsequent modifications: return the existing dirty copy
  *
  * The dirty copy is stored in the transaction's dirty_pages hash table,
- * keyed by the original page number. On commit, dirty pages are written
- * to their original locations in the file.
+ * keyed by the original page number. On commit, dirty pages get new locations
+ * in the file and the original ones are left as they are.
  *
  * @param txn Write transaction handle
  * @param original_page Pointer to the original page in the memory map
-- 
2.43.0


From 7f1dd9625e81efdb4cb7a97f383ff636b909e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:56 +0000
Subject: [PATCH 32/43] fix: cursors step over empty leaves, and find the next
 key beyond the end of a leaf

---
 src/napr_db_cursor.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/napr_db_cursor.c b/src/napr_db_cursor.c
index 1c31956..1ff9615 100644
--- a/src/napr_db_cursor.c
+++ b/src/napr_db_cursor.c
@@ -172,8 +172,9 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         status = db_page_search(page, key, &index);
         /* If exact match or insertion point is found, it's valid */
         if (index >= page->num_keys) {
-            /* TODO: Handle NEXT logic to find next page */
-            return APR_NOTFOUND;
+            /* Everything in this leaf is smaller: go on from its end */
+            cursor->stack[cursor->top - 1].index = page->num_keys;
+            return db_cursor_next(cursor);
         }
         break;
     case NAPR_DB_NEXT:
@@ -183,12 +184,13 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         return APR_EINVAL;
     }
 
+    cursor->stack[cursor->top - 1].index = index;
+
+    /* Leaves may have become empty */
     if (page->num_keys == 0) {
-        cursor->eof = 1;
-        return APR_NOTFOUND;
+        return operation == NAPR_DB_LAST ? db_cursor_prev(cursor) : db_cursor_next(cursor);
     }
 
-    cursor->stack[cursor->top - 1].index = index;
     return APR_SUCCESS;
 }
 
@@ -264,12 +266,11 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 }
 
                 if (page->flags & P_LEAF) {
-                    /* Reached leaf - push it with index 0 */
-                    cursor_push(cursor, page, 0);
                     if (page->num_keys == 0) {
-                        cursor->eof = 1;
-                        return APR_NOTFOUND;
+                        break;  /* Nothing here - go on with the next sibling */
                     }
+                    /* Reached leaf - push it with index 0 */
+                    cursor_push(cursor, page, 0);
                     return APR_SUCCESS;
                 }
 
@@ -278,9 +279,10 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 child_pgno = db_page_branch_node(page, 0)->pgno;
             }
         }
-
-        /* This parent also exhausted - ascend further */
-        cursor->top--;
+        else {
+            /* This parent also exhausted - ascend further */
+            cursor->top--;
+        }
     }
 
     /* Reached root and exhausted all entries */
@@ -305,6 +307,8 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
  */
 /**
  * @brief Descend to the rightmost leaf of a subtree.
+ *
+ * @return APR_SUCCESS at the last key of that leaf, APR_NOTFOUND if the leaf is empty
  */
 static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
 {
@@ -319,7 +323,6 @@ static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
 
         if (page->flags & P_LEAF) {
             if (page->num_keys == 0) {
-                cursor->eof = 1;
                 return APR_NOTFOUND;
             }
             cursor_push(cursor, page, page->num_keys - 1);
@@ -327,7 +330,6 @@ static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
         }
 
         if (page->num_keys == 0) {
-            cursor->eof = 1;
             return APR_NOTFOUND;
         }
         cursor_push(cursor, page, page->num_keys - 1);
@@ -364,12 +366,19 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
         index = cursor->stack[cursor->top - 1].index;
 
         if (index > 0) {
+            apr_status_t status = APR_SUCCESS;
+
             index--;
             cursor->stack[cursor->top - 1].index = index;
-            return descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            status = descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            if (status != APR_NOTFOUND) {
+                return status;
+            }
+            /* An empty leaf - go on with the sibling before it */
+        }
+        else {
+            cursor->top--;
         }
-
-        cursor->top--;
     }
 
     cursor->eof = 1;
-- 
2.43.0


From 1bff592612601f4a17c5d94abaf6b68588d3ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 33/43] fix: take a reader's snapshot together with its slot,
 and give back that very slot

---
 src/napr_db.c          | 94 +++++++++++++++++++++++-------------------
 src/napr_db_internal.h |  2 +
 2 files changed, 54 insertions(+), 42 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 5791d3a..2015525 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -479,6 +479,39 @@ apr_status_t db_get_oldest_reader_txnid(napr_db_env_t *env, txnid_t *oldest_txni
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Give back the reader slot of a read-only transaction.
+ *
+ * The slot is the transaction's, whichever thread ends it.
+ *
+ * @param txn Read-only transaction
+ */
+static void release_reader_slot(napr_db_txn_t *txn)
+{
+    DB_ReaderSlot *slot = &txn->env->reader_table[txn->reader_slot];
+
+    apr_thread_mutex_lock(txn->env->reader_table_mutex);
+    slot->txnid = 0;
+    slot->pid = 0;
+    slot->tid = 0;
+    apr_thread_mutex_unlock(txn->env->reader_table_mutex);
+}
+
+/**
+ * @brief Capture the snapshot of the live meta page in a transaction.
+ *
+ * @param txn Transaction being started
+ */
+static void capture_snapshot(napr_db_txn_t *txn)
+{
+    const DB_MetaPage *meta = txn->env->live_meta;
+
+    txn->txnid = meta->txnid;
+    txn->root_pgno = meta->root;
+    txn->free_db_root_pgno = meta->free_db_root;
+    txn->new_last_pgno = meta->last_pgno;
+}
+
 /*
  * Transaction API implementation
  */
@@ -533,18 +566,14 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
     txn_handle->pool = txn_pool;
     txn_handle->flags = flags;
 
-    /* Capture snapshot from current live meta page */
-    txn_handle->txnid = env->live_meta->txnid;
-    txn_handle->root_pgno = env->live_meta->root;
-    txn_handle->free_db_root_pgno = env->live_meta->free_db_root;
-
-    /* Initialize dirty page tracking and allocation state */
+    /* Initialize dirty page tracking */
     txn_handle->dirty_pages = NULL;
-    txn_handle->new_last_pgno = env->live_meta->last_pgno;
     txn_handle->freed_pages = NULL;
 
     /* If write transaction, increment TXNID and create dirty pages tracker */
     if (is_write) {
+        /* Capture snapshot from current live meta page */
+        capture_snapshot(txn_handle);
         txn_handle->txnid++;
 
         /* Create hash table for tracking dirty pages (CoW) */
@@ -576,9 +605,14 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
             return status;
         }
 
+        /* Capture the snapshot while no commit can replace the live meta page and no
+         * writer can look for the oldest reader: from here on both see this reader */
+        capture_snapshot(txn_handle);
+
         /* Find an empty slot (txnid == 0) */
         for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
             if (env->reader_table[slot_idx].txnid == 0) {
+                txn_handle->reader_slot = slot_idx;
                 env->reader_table[slot_idx].pid = pid;
                 env->reader_table[slot_idx].tid = tid;
                 env->reader_table[slot_idx].txnid = txn_handle->txnid;
@@ -1293,7 +1327,13 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
     }
 
     memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));
+
+    /* Readers take their snapshots under this lock */
+    status = apr_thread_mutex_lock(txn->env->reader_table_mutex);
     txn->env->live_meta = stale_meta;
+    if (status == APR_SUCCESS) {
+        apr_thread_mutex_unlock(txn->env->reader_table_mutex);
+    }
 
     return APR_SUCCESS;
 }
@@ -1313,23 +1353,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
-
-        apr_thread_mutex_lock(txn->env->reader_table_mutex);
-
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
-        }
-
-        apr_thread_mutex_unlock(txn->env->reader_table_mutex);
+        release_reader_slot(txn);
     }
 
     if (!is_write || !txn->dirty_pages || apr_hash_count(txn->dirty_pages) == 0) {
@@ -1402,31 +1426,17 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 apr_status_t napr_db_txn_abort(napr_db_txn_t *txn)
 {
     apr_status_t status = APR_SUCCESS;
-    int is_write = !(txn->flags & NAPR_DB_RDONLY);
+    int is_write = 0;
 
     if (!txn) {
         return APR_EINVAL;
     }
 
+    is_write = !(txn->flags & NAPR_DB_RDONLY);
+
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
-
-        apr_thread_mutex_lock(txn->env->reader_table_mutex);
-
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
-        }
-
-        apr_thread_mutex_unlock(txn->env->reader_table_mutex);
+        release_reader_slot(txn);
     }
 
     /* If write transaction, release writer lock */
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index cec7f70..cabd343 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -347,6 +347,8 @@ typedef struct __attribute__((packed))
                                 /**< Root page number for Free DB snapshot */
          unsigned int flags;    /**< Transaction flags (RDONLY, etc.) */
 
+         int reader_slot;       /**< Slot in the reader table (read-only transactions) */
+
          /* Copy-on-Write tracking for write transactions */
          apr_hash_t *dirty_pages;
                                 /**< Hash table: pgno_t -> DB_PageHeader* (dirty copy) */
-- 
2.43.0


From a211915eeae77bb129e6b3d1bba7a29f1425d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:26 +0000
Subject: [PATCH 34/43] fix: a commit whose meta page failed to reach the disk
 leaves no trace of itself

---
 src/napr_db.c          | 54 +++++++++++++++++++++++++++++++-----------
 src/napr_db_internal.h |  3 +++
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 2015525..a9d6b53 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -308,6 +308,7 @@ apr_status_t napr_db_env_open(napr_db_env_t *env, const char *path, unsigned int
     }
 
     env->flags = flags;
+    env->write_error = APR_SUCCESS;
 
     status = db_file_open(env, path, &is_new_file);
     if (status != APR_SUCCESS) {
@@ -559,6 +560,14 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
             apr_pool_destroy(txn_pool);
             return status;
         }
+
+        /* A failed commit may still be on disk, nothing may be written over its pages */
+        if (env->write_error != APR_SUCCESS) {
+            status = env->write_error;
+            db_writer_unlock(env);
+            apr_pool_destroy(txn_pool);
+            return status;
+        }
     }
 
     /* Initialize transaction */
@@ -1277,6 +1286,30 @@ apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_
     return status;
 }
 
+/**
+ * @brief Write a meta page and wait until it is on disk.
+ * @param env The database environment.
+ * @param meta_pgno Page number of the meta page (0 or 1).
+ * @param meta Contents to write.
+ * @return APR_SUCCESS or an error code.
+ */
+static apr_status_t write_meta_page(napr_db_env_t *env, pgno_t meta_pgno, const DB_MetaPage *meta)
+{
+    apr_off_t meta_offset = (apr_off_t) meta_pgno *PAGE_SIZE;
+    apr_status_t status = apr_file_seek(env->file, APR_SET, &meta_offset);
+
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    status = apr_file_write_full(env->file, meta, PAGE_SIZE, NULL);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    return apr_file_sync(env->file);
+}
+
 /**
  * @brief Atomically update the meta page to commit the transaction.
  * @param txn The transaction.
@@ -1287,10 +1320,9 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
 {
     apr_status_t status = APR_SUCCESS;
     DB_MetaPage updated_meta;
+    DB_MetaPage old_meta;
     DB_MetaPage *stale_meta = NULL;
     pgno_t meta_pgno = 0;
-    apr_off_t meta_offset = 0;
-    apr_size_t meta_bytes = PAGE_SIZE;
 
     if (txn->env->live_meta == txn->env->meta0) {
         stale_meta = txn->env->meta1;
@@ -1309,20 +1341,14 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
     updated_meta.last_pgno = txn->new_last_pgno;
     updated_meta.free_db_root = pgnos.new_free_db_root_pgno;
 
-    meta_offset = (apr_off_t) meta_pgno *PAGE_SIZE;
-
-    status = apr_file_seek(txn->env->file, APR_SET, &meta_offset);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    status = apr_file_write_full(txn->env->file, &updated_meta, meta_bytes, NULL);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
+    old_meta = *stale_meta;
 
-    status = apr_file_sync(txn->env->file);
+    status = write_meta_page(txn->env, meta_pgno, &updated_meta);
     if (status != APR_SUCCESS) {
+        /* The new meta page may have reached the disk or not: the transaction failed, so put the old one back */
+        if (write_meta_page(txn->env, meta_pgno, &old_meta) != APR_SUCCESS) {
+            txn->env->write_error = status;
+        }
         return status;
     }
 
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index cabd343..d8965b2 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -314,6 +314,9 @@ typedef struct __attribute__((packed))
          DB_MetaPage *meta1;    /**< Pointer to Meta Page 1 in mmap */
          DB_MetaPage *live_meta;/**< Pointer to current active meta page */
 
+         apr_status_t write_error;
+                                /**< Error that left the state on disk unknown, or APR_SUCCESS */
+
          /* Synchronization - SWMR model */
          apr_thread_mutex_t *writer_thread_mutex;
                                               /**< Intra-process writer lock */
-- 
2.43.0


From 4aee64666411040977c5079e98688f7209685fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:00 +0000
Subject: [PATCH 35/43] fix: open a database whose creation was interrupted

---
 src/napr_db.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index a9d6b53..1093a9f 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -120,6 +120,19 @@ static apr_status_t validate_meta_page(const DB_MetaPage *meta)
     return APR_SUCCESS;
 }
 
+/**
+ * @brief Tell whether a meta page was never written.
+ *
+ * @param meta Pointer to meta page
+ * @return 1 if the page is all zero, 0 otherwise
+ */
+static int is_blank_meta_page(const DB_MetaPage *meta)
+{
+    static const DB_MetaPage blank_meta;
+
+    return memcmp(meta, &blank_meta, sizeof(DB_MetaPage)) == 0;
+}
+
 /**
  * @brief Select the live meta page (highest valid TXNID).
  *
@@ -189,14 +202,17 @@ static apr_status_t db_file_open(napr_db_env_t *env, const char *path, int *is_n
         return status;
     }
 
-    if (status == APR_SUCCESS) {
+    if (status == APR_SUCCESS && finfo.size > 0) {
+        if (finfo.size < (apr_off_t) 2 * PAGE_SIZE) {
+            return APR_EINVAL;  /* No room for the meta pages: not a database */
+        }
         *is_new_file = 0;
         return apr_file_open(&env->file, path, file_flags, APR_OS_DEFAULT, env->pool);
     }
 
-    /* File doesn't exist */
+    /* File doesn't exist, or its creation was interrupted while it was still empty */
     if (!(env->flags & NAPR_DB_CREATE)) {
-        return APR_ENOENT;
+        return status == APR_SUCCESS ? APR_EINVAL : APR_ENOENT;
     }
 
     *is_new_file = 1;
@@ -251,6 +267,11 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
     env->meta0 = (DB_MetaPage *) env->map_addr;
     env->meta1 = (DB_MetaPage *) ((char *) env->map_addr + PAGE_SIZE);
 
+    /* A file whose creation was interrupted has its final size, but no meta page yet */
+    if ((env->flags & NAPR_DB_CREATE) && is_blank_meta_page(env->meta0) && is_blank_meta_page(env->meta1)) {
+        is_new_file = 1;
+    }
+
     if (is_new_file) {
         init_meta_page(env->meta0, 0);
         init_meta_page(env->meta1, 1);
-- 
2.43.0


From 3d61d24a358e993cf0d9bade56ca7fc6a8614735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:02 +0000
Subject: [PATCH 36/43] fix: a cache with an active transaction starts no
 second one, and ends it when closed

---
 src/napr_cache.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index 91e0a22..80d3dfc 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -155,6 +155,12 @@ apr_status_t napr_cache_close(napr_cache_t *cache)
         return APR_EINVAL;
     }
 
+    /* End the active transaction, if any */
+    if (cache->active_txn) {
+        status = napr_db_txn_abort(cache->active_txn);
+        cache->active_txn = NULL;
+    }
+
     /* Close napr_db environment */
     if (cache->db_env) {
         status_tmp = napr_db_env_close(cache->db_env);
@@ -197,6 +203,10 @@ apr_status_t napr_cache_begin_read(napr_cache_t *cache, apr_pool_t *pool)
         return APR_EINVAL;
     }
 
+    if (cache->active_txn) {
+        return APR_EINVAL;      /* A transaction is active already */
+    }
+
     /* Begin read-only transaction on underlying DB */
     status = napr_db_txn_begin(cache->db_env, NAPR_DB_RDONLY, &cache->active_txn);
     if (status != APR_SUCCESS) {
@@ -215,6 +225,10 @@ apr_status_t napr_cache_begin_write(napr_cache_t *cache, apr_pool_t *pool)
         return APR_EINVAL;
     }
 
+    if (cache->active_txn) {
+        return APR_EINVAL;      /* A transaction is active already */
+    }
+
     /* Begin write transaction on underlying DB */
     status = napr_db_txn_begin(cache->db_env, 0, &cache->active_txn);
     if (status != APR_SUCCESS) {
-- 
2.43.0


From fe8a95ef1da5b7430a697919b7363473cf65a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:26 +0000
Subject: [PATCH 37/43] fix: release the lock of the reader table only when it
 was taken

---
 src/napr_db.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 1093a9f..5c49309 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -512,11 +512,13 @@ static void release_reader_slot(napr_db_txn_t *txn)
 {
     DB_ReaderSlot *slot = &txn->env->reader_table[txn->reader_slot];
 
-    apr_thread_mutex_lock(txn->env->reader_table_mutex);
+    apr_status_t locked = apr_thread_mutex_lock(txn->env->reader_table_mutex);
     slot->txnid = 0;
     slot->pid = 0;
     slot->tid = 0;
-    apr_thread_mutex_unlock(txn->env->reader_table_mutex);
+    if (locked == APR_SUCCESS) {
+        apr_thread_mutex_unlock(txn->env->reader_table_mutex);
+    }
 }
 
 /**
-- 
2.43.0


From dbde77290327fa793225c75e8509b03ae3043884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:24 +0000
Subject: [PATCH 38/43] fix: close the archive on every way out of the
 extraction of a member

---
 src/ft_archive.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index bf5d8ea..b182097 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -70,6 +70,7 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
     struct archive *ext = NULL;
     struct archive_entry *entry = NULL;
     char *tmpfile = NULL;
+    char *extracted = NULL;
     int result_value = 0;
 
     archive_handle = archive_read_new();
@@ -80,34 +81,34 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
     result_value = archive_read_support_filter_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_filter_all(): %s", archive_error_string(archive_handle));
-        return NULL;
+        goto cleanup;
     }
     result_value = archive_read_support_format_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_format_all(): %s", archive_error_string(archive_handle));
-        return NULL;
+        goto cleanup;
     }
     result_value = archive_read_open_filename(archive_handle, file->path, ARCHIVE_BLOCK_SIZE);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_open_filename(%s): %s", file->path, archive_error_string(archive_handle));
-        return NULL;
+        goto cleanup;
     }
 
     ext = archive_write_disk_new();
     if (NULL == ext) {
         DEBUG_ERR("error calling archive_write_disk_new()");
-        return NULL;
+        goto cleanup;
     }
 
     for (;;) {
         result_value = archive_read_next_header(archive_handle, &entry);
         if (result_value == ARCHIVE_EOF) {
             DEBUG_ERR("subpath [%s] not found in archive [%s]", file->subpath, file->path);
-            return NULL;
+            goto cleanup;
         }
         if (result_value != ARCHIVE_OK) {
             DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
-            return NULL;
+            goto cleanup;
         }
 
         if (!strcmp(file->subpath, archive_entry_pathname(entry))) {
@@ -122,7 +123,7 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             result_value = mkstemp(tmpfile);
             if (result_value < 0) {
                 DEBUG_ERR("error creating tmpfile %s", tmpfile);
-                return NULL;
+                goto cleanup;
             }
             umask(current_mode);
             close(result_value);
@@ -135,21 +136,25 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
                 if (result_value != ARCHIVE_OK) {
                     DEBUG_ERR("error while copying data from archive (%s)", file->path);
                     (void) apr_file_remove(tmpfile, pool);
-                    return NULL;
+                    goto cleanup;
                 }
             }
             else {
                 DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
                 (void) apr_file_remove(tmpfile, pool);
-                return NULL;
+                goto cleanup;
             }
 
+            extracted = tmpfile;
             break;
         }
     }
 
-    archive_write_free(ext);
+  cleanup:
+    if (NULL != ext) {
+        archive_write_free(ext);
+    }
     archive_read_free(archive_handle);
 
-    return tmpfile;
+    return extracted;
 }
-- 
2.43.0


From 2102d6e3144d40da195fc0588c43d37b9a131c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:26 +0000
Subject: [PATCH 39/43] fix: an extracted member is private whatever its
 permissions, and the umask is left alone

---
 src/ft_archive.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index b182097..3da4464 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -112,8 +112,6 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
         }
 
         if (!strcmp(file->subpath, archive_entry_pathname(entry))) {
-            mode_t current_mode = umask(S_IRWXG | S_IRWXO);
-
             /*
              * All I want is only a temporary filename, but gcc outputs me an
              * ugly warning if I use tempnam...
@@ -125,10 +123,11 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
                 DEBUG_ERR("error creating tmpfile %s", tmpfile);
                 goto cleanup;
             }
-            umask(current_mode);
             close(result_value);
 
+            /* The file is written anew with the permissions of the member: keep it private and readable */
             archive_entry_copy_pathname(entry, tmpfile);
+            archive_entry_set_perm(entry, S_IRUSR | S_IWUSR);
 
             result_value = archive_write_header(ext, entry);
             if (result_value == ARCHIVE_OK) {
-- 
2.43.0


From 45847e0c7f6d2524cec81148b40372de97c64cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 40/43] fix: a member whose file could not be completed is not
 extracted

---
 src/ft_archive.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index 3da4464..4de282c 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -132,6 +132,9 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             result_value = archive_write_header(ext, entry);
             if (result_value == ARCHIVE_OK) {
                 result_value = copy_data(archive_handle, ext);
+                if (result_value == ARCHIVE_OK && archive_write_finish_entry(ext) != ARCHIVE_OK) {
+                    result_value = ARCHIVE_FAILED;
+                }
                 if (result_value != ARCHIVE_OK) {
                     DEBUG_ERR("error while copying data from archive (%s)", file->path);
                     (void) apr_file_remove(tmpfile, pool);
-- 
2.43.0


From 47809deaddf82c57dee9d755464280258003e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:29 +0000
Subject: [PATCH 41/43] fix: extract regular members only, and skip members
 whose name cannot be converted

---
 src/ft_archive.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index 4de282c..eb3af45 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -111,7 +111,13 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             goto cleanup;
         }
 
-        if (!strcmp(file->subpath, archive_entry_pathname(entry))) {
+        if (NULL != archive_entry_pathname(entry) && !strcmp(file->subpath, archive_entry_pathname(entry))) {
+            /* A link would be created on disk, and the file it names could be written */
+            if (AE_IFREG != archive_entry_filetype(entry) || NULL != archive_entry_hardlink(entry)) {
+                DEBUG_ERR("subpath [%s] is not a regular file of archive [%s]", file->subpath, file->path);
+                goto cleanup;
+            }
+
             /*
              * All I want is only a temporary filename, but gcc outputs me an
              * ugly warning if I use tempnam...
-- 
2.43.0


From 212407b2abe94dd5806eb21eee634df4d4eb5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 42/43] fix: end the workers when an image cannot be handed to
 them

---
 src/ft_image.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ft_image.c b/src/ft_image.c
index a33fee4..35d901c 100644
--- a/src/ft_image.c
+++ b/src/ft_image.c
@@ -160,6 +160,8 @@ static apr_status_t compute_image_vectors(ft_conf_t *conf, PuzzleContext * conte
         status = napr_threadpool_add(threadpool, task);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling napr_threadpool_add: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+            /* The workers use the context of this function */
+            napr_threadpool_shutdown(threadpool);
             return status;
         }
     }
-- 
2.43.0


From d8cf948871bff72277326532948055954158f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 43/43] fix: end the workers when a file cannot be handed to
 them

---
 src/ft_process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_process.c b/src/ft_process.c
index d6c96c1..3979f7b 100644
--- a/src/ft_process.c
+++ b/src/ft_process.c
@@ -216,7 +216,7 @@ static apr_status_t dispatch_hashing_tasks(ft_conf_t *conf, apr_pool_t *gc_pool,
                     status = napr_threadpool_add(threadpool, task);
                     if (APR_SUCCESS != status) {
                         DEBUG_ERR("error calling napr_threadpool_add: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
-                        napr_threadpool_wait(threadpool);
+                        napr_threadpool_shutdown(threadpool);
                         apr_thread_mutex_destroy(h_ctx.stats_mutex);
                         return status;
                     }
-- 
2.43.0

