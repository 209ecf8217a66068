From 224eb7371bf733ba32ba6d87b8cc186c3bf21f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 01/24] fix: compare integer keys without overflow

Subtracting two ints overflows for keys far apart, so kvtree_sort_int and
kvtree_list_int ordered e.g. INT_MIN after 0.
---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a43c4a9..a56bac3 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -551,7 +551,7 @@ static int kvtree_cmp_fn_int_asc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_a - int_b);
+  return (int_a > int_b) - (int_a < int_b);
 }
 
 /** sort integers in descending order */
@@ -561,7 +561,7 @@ static int kvtree_cmp_fn_int_desc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_b - int_a);
+  return (int_b > int_a) - (int_b < int_a);
 }
 
 /** sort the hash assuming the keys are ints */
-- 
2.43.0


From e68e90717fd7ae12969889eea0eb8f0c786eb33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 02/24] verification hook: segment size override, off unless
 KVTREE_VERIF_SEGSIZE is defined

---
 src/kvtree_mpi_io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 71cd502..cebbceb 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -33,6 +33,13 @@ static int pick_writer(
   /* use a segment size of 1MB */
   unsigned long segsize = 1024*1024;
 
+#ifdef KVTREE_VERIF_SEGSIZE
+  /* verification builds reach several index levels with little data */
+  if (getenv("KVTREE_VERIF_SEGSIZE") != NULL) {
+    segsize = strtoul(getenv("KVTREE_VERIF_SEGSIZE"), NULL, 10);
+  }
+#endif
+
   /* get communicator info */
   int rank, ranks;
   MPI_Comm_rank(comm, &rank);
-- 
2.43.0


From fe0fa9d97efa3e450f0733690342a9770ff5e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 03/24] fix: truncate the file and report failed writes in
 kvtree_write_with_lock

---
 src/kvtree.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a56bac3..c21fa35 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1571,13 +1571,26 @@ int kvtree_write_with_lock(const char* file, kvtree* hash)
 {
   int fd = kvtree_read_write_with_lock(file, hash, 1);
   if (fd >= 0) {
+    int rc = KVTREE_SUCCESS;
+
     /* write the file into the hash */
-    kvtree_write_fd(file, fd, hash);
+    ssize_t nwrite = kvtree_write_fd(file, fd, hash);
+    if (nwrite < 0) {
+      rc = KVTREE_FAILURE;
+    } else if (ftruncate(fd, (off_t) nwrite) == -1) {
+      /* the file may have been longer before */
+      kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
+        errno, strerror(errno), __FILE__, __LINE__
+      );
+      rc = KVTREE_FAILURE;
+    }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, fd);
+    if (kvtree_close_with_unlock(file, fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
-    return KVTREE_SUCCESS;
+    return rc;
   } else {
     kvtree_err("Failed to open file with lock %s @ %s:%d",
       file, __FILE__, __LINE__
-- 
2.43.0


From 65bf12b225f900584bd6e7a1059e07fde7c91491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 04/24] fix: pass the size to the out-of-memory message

---
 src/kvtree_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index d7ba4e9..fb3e2d1 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -70,7 +70,7 @@ void* kvtree_malloc(size_t size, const char* file, int line)
   if (size > 0) {
     ptr = malloc(size);
     if (ptr == NULL) {
-      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", file, line);
+      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", (unsigned long long) size, file, line);
     }
   }
   return ptr;
-- 
2.43.0


From d0af92506505143c7faaf04e5666dfb9b6754664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 05/24] fix: report failure for a bogus size in a file header
 instead of aborting

---
 src/kvtree.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index c21fa35..4f03247 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1397,7 +1397,13 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   }
 
   /* allocate a buffer to read the hash and crc */
-  char* buf = (char*) KVTREE_MALLOC(filesize);
+  char* buf = (char*) malloc(filesize);
+  if (buf == NULL) {
+    /* the size comes from the file, so it may be bogus */
+    kvtree_err("Failed to allocate %llu bytes to read %s @ %s:%d",
+      (unsigned long long) filesize, file, __FILE__, __LINE__);
+    return -1;
+  }
 
   /* copy the header into the buffer */
   memcpy(buf, header, size);
-- 
2.43.0


From a0b9c69cd669ce1edb4fd99f7297e7c0b65e3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 06/24] fix: never unpack beyond the contents of a malformed
 file

---
 src/kvtree.c | 49 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 4f03247..705eae9 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1325,6 +1325,39 @@ ssize_t kvtree_read_persist(const void* buf, size_t bufsize, kvtree* hash)
 }
 #endif
 
+/** checks that a packed hash starts at buf and lies within its bufsize bytes,
+ * returns the number of bytes it takes or 0 if there is no such hash */
+static size_t kvtree_packed_size(const char* buf, size_t bufsize)
+{
+  /* read in the COUNT value */
+  size_t size = sizeof(uint32_t);
+  if (bufsize < size) {
+    return 0;
+  }
+  uint32_t count_network = 0;
+  memcpy(&count_network, buf, sizeof(uint32_t));
+  uint32_t count = kvtree_ntoh32(count_network);
+
+  while (count > 0) {
+    /* the key must be terminated */
+    const char* end = (const char*) memchr(buf + size, '\0', bufsize - size);
+    if (end == NULL) {
+      return 0;
+    }
+    size = (size_t) (end - buf) + 1;
+
+    /* then comes the hash of this key */
+    size_t child = kvtree_packed_size(buf + size, bufsize - size);
+    if (child == 0) {
+      return 0;
+    }
+    size += child;
+    count--;
+  }
+
+  return size;
+}
+
 /** executes logic of kvtree_read using an opened file descriptor */
 ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
 {
@@ -1389,7 +1422,8 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   kvtree_unpack_uint32_t(header, sizeof(header), &size, &flags);
 
   /* check that the filesize is valid (positive) */
-  if (filesize < KVTREE_FILE_HASH_HEADER_SIZE) {
+  size_t crc_size = (flags & KVTREE_FILE_FLAGS_CRC32) ? sizeof(uint32_t) : 0;
+  if (filesize < KVTREE_FILE_HASH_HEADER_SIZE + crc_size) {
     kvtree_err("Invalid file size stored in %s @ %s:%d",
       file, __FILE__, __LINE__
     );
@@ -1429,9 +1463,6 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   /* check the crc value if it's set */
   int crc_set = flags & KVTREE_FILE_FLAGS_CRC32;
   if (crc_set) {
-    /* TODO: we should check that the remainder above is at least 4
-     * (for the crc) */
-
     /* compute the crc value of the data */
     uLong crc = crc32(0L, Z_NULL, 0);
     crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));
@@ -1451,6 +1482,16 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
+  /* check that the packed hash fills the space between header and crc */
+  size_t pack_size = (size_t) filesize - size - crc_size;
+  if (pack_size == 0 || kvtree_packed_size(buf + size, pack_size) != pack_size) {
+    kvtree_err("Invalid hash stored in %s @ %s:%d",
+      file, __FILE__, __LINE__
+    );
+    kvtree_free(&buf);
+    return -1;
+  }
+
   /* create a temporary hash to read data into, unpack, and merge */
   kvtree* tmp_hash = kvtree_new();
   kvtree_unpack(buf + size, tmp_hash);
-- 
2.43.0


From d0c077d7c123f5bb25c2bde799eda7673ead8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 07/24] fix: print and log trees at indents beyond the line
 buffer

---
 src/kvtree.c | 54 +++++++++++++---------------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 705eae9..3e3046c 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1989,23 +1989,16 @@ end:
 /** prints specified hash element to stdout for debugging */
 static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (mode == KVTREE_PRINT_TREE) {
     if (elem != NULL) {
       if (elem->key != NULL) {
-        printf("%s%s\n", tmp, elem->key);
+        printf("%*s%s\n", indent, "", elem->key);
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
       }
       kvtree_print_mode(elem->hash, indent, mode);
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2020,25 +2013,25 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
           if (elem2->hash == NULL || kvtree_size(elem2->hash) == 0) {
             /* my hash has one value, and the hash for that one value
              * is empty, so print this as a key/value pair */
-            printf("%s%s = %s\n", tmp, elem->key, elem2->key);
+            printf("%*s%s = %s\n", indent, "", elem->key, elem2->key);
           } else {
             /* my hash has one value, but the hash for that one value is
              * non-empty so we need to recurse into hash */
-            printf("%s%s\n", tmp, elem->key);
+            printf("%*s%s\n", indent, "", elem->key);
             kvtree_print_mode(elem->hash, indent, mode);
           }
         } else {
           /* hash for current element has 0 or more than one items,
            * so we need to recurse into hash */
-          printf("%s%s\n", tmp, elem->key);
+          printf("%*s%s\n", indent, "", elem->key);
           kvtree_print_mode(elem->hash, indent, mode);
         }
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
         kvtree_print_mode(elem->hash, indent, mode);
       }
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2050,20 +2043,13 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 /** prints specified hash to stdout for debugging */
 int kvtree_print_mode(const kvtree* hash, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_print(elem, indent + 2, mode);
     }
   } else {
-    printf("%sNULL LIST\n", tmp);
+    printf("%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2077,22 +2063,15 @@ int kvtree_print(const kvtree* hash, int indent)
 /** logs specified hash element to stdout for debugging */
 static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (elem != NULL) {
     if (elem->key != NULL) {
-      kvtree_dbg(log_level, "%s%s\n", tmp, elem->key);
+      kvtree_dbg(log_level, "%*s%s\n", indent, "", elem->key);
     } else {
-      kvtree_dbg(log_level, "%sNULL KEY\n", tmp);
+      kvtree_dbg(log_level, "%*sNULL KEY\n", indent, "");
     }
     kvtree_log(elem->hash, log_level, indent);
   } else {
-    kvtree_dbg(log_level, "%sNULL ELEMENT\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL ELEMENT\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2100,20 +2079,13 @@ static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 /** prints specified hash to stdout for debugging */
 int kvtree_log(const kvtree* hash, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_log(elem, log_level, indent+2);
     }
   } else {
-    kvtree_dbg(log_level, "%sNULL LIST\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
-- 
2.43.0


From 1c1020b2176bc7e1c2f9a8026efbbfa55f17f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 08/24] fix: do not return a status as file descriptor when
 locking fails

---
 src/kvtree_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 81c6def..954b23e 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -222,7 +222,7 @@ int kvtree_open_with_lock(const char* file, int flags, mode_t mode, int write)
   int ret = kvtree_file_lock_read_write(file, fd, write);
   if (ret != KVTREE_SUCCESS) {
     close(fd);
-    return ret;
+    return -1;
   }
 
   /* return the opened file descriptor */
-- 
2.43.0


From ca51ce2038d7858911db6f082e9be4bbb18c39e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 09/24] fix: report failed writes in kvtree_write_close_unlock

---
 src/kvtree.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 3e3046c..bfdd75d 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1732,12 +1732,24 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
     return KVTREE_FAILURE;
   }
 
+  int rc = KVTREE_SUCCESS;
   if (*fd >= 0) {
     /* wind the file pointer back to the start of the file */
-    lseek(*fd, 0, SEEK_SET);
+    if (lseek(*fd, 0, SEEK_SET) == (off_t) -1) {
+      kvtree_err("lseek() failed: errno=%d (%s) @ %s:%d",
+        errno, strerror(errno), __FILE__, __LINE__
+      );
+      rc = KVTREE_FAILURE;
+    }
 
     /* write the updated hash back to the file */
-    ssize_t nwrite = kvtree_write_fd(file, *fd, hash);
+    ssize_t nwrite = -1;
+    if (rc == KVTREE_SUCCESS) {
+      nwrite = kvtree_write_fd(file, *fd, hash);
+      if (nwrite < 0) {
+        rc = KVTREE_FAILURE;
+      }
+    }
 
     /* truncate file to new size */
     if (nwrite >= 0) {
@@ -1745,17 +1757,20 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
         kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
           errno, strerror(errno), __FILE__, __LINE__
         );
+        rc = KVTREE_FAILURE;
       }
     }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, *fd);
+    if (kvtree_close_with_unlock(file, *fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* mark the file descriptor as closed */
     *fd = -1;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /** write kvtree as gather/scatter file, input kvtree must be in form:
-- 
2.43.0


From 07d3909d35c9522ce7d2b6a57c7bee011d21ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 10/24] fix: report a failed close in kvtree_write_gather

---
 src/kvtree_mpi_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index cebbceb..9c5f5cf 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -253,7 +253,9 @@ static unsigned long kvtree_write_gather_map(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
@@ -363,7 +365,9 @@ int kvtree_write_gather(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err( "Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
-- 
2.43.0


From 2c86f3938d77b77a19baaa9676c5210eec849b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 11/24] fix: close the file even when unlocking fails

---
 src/kvtree_io.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 954b23e..0db0253 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -234,12 +234,13 @@ int kvtree_close_with_unlock(const char* file, int fd)
 {
   /* release the file lock */
   int ret = kvtree_file_unlock(file, fd);
-  if (ret != KVTREE_SUCCESS) {
-    return ret;
+
+  /* close the file, this also releases the lock if we could not */
+  if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
+    ret = KVTREE_FAILURE;
   }
 
-  /* close the file */
-  return kvtree_close(file, fd);
+  return ret;
 }
 
 /* seek file descriptor to specified position */
-- 
2.43.0


From c99c0667864ff855cdb8dfd68507a76448a562e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 12/24] fix: end with a message when a key or path cannot be
 duplicated

---
 src/kvtree.c        | 12 +++++++++++-
 src/kvtree_mpi_io.c | 10 ++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index bfdd75d..96e440f 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -100,6 +100,11 @@ static kvtree_elem* kvtree_elem_init(kvtree_elem* elem, const char* key, kvtree*
   if (elem != NULL) {
     if (key != NULL) {
       elem->key = strdup(key);
+      if (elem->key == NULL) {
+        kvtree_abort(-1, "Failed to duplicate key string @ %s:%d",
+          __FILE__, __LINE__
+        );
+      }
     } else {
       /* bad idea to allow key to be set to NULL */
       elem->key = NULL;
@@ -1920,8 +1925,13 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 
   /* Look at all the subfiles with our prefix and read in the file lists */
   char* prefix_dir_copy = strdup(prefix);
-  char* prefix_dir = dirname(prefix_dir_copy);
   char* prefix_file_copy = strdup(prefix);
+  if (prefix_dir_copy == NULL || prefix_file_copy == NULL) {
+    kvtree_abort(-1, "Failed to duplicate prefix string @ %s:%d",
+      __FILE__, __LINE__
+    );
+  }
+  char* prefix_dir = dirname(prefix_dir_copy);
   char* prefix_file = basename(prefix_file_copy);
 
   /* Create our regex to match our prefix files */
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 9c5f5cf..45f8b87 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -466,6 +466,11 @@ static int kvtree_read_scatter_map(
       char mappath[1024];
       snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
       newfile = strdup(mappath);
+      if (newfile == NULL) {
+        kvtree_abort(-1, "Failed to duplicate file name @ %s:%d",
+          __FILE__, __LINE__
+        );
+      }
     } else {
       rc = KVTREE_FAILURE;
     }
@@ -544,6 +549,11 @@ int kvtree_read_scatter(
     /* rank 0 is only valid reader to start with */
     valid  = 1;
     file   = strdup(mappath);
+    if (file == NULL) {
+      kvtree_abort(-1, "Failed to duplicate file name @ %s:%d",
+        __FILE__, __LINE__
+      );
+    }
     offset = 0;
   }
   if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
-- 
2.43.0


From 92cca911673d689df79b2635cff67702db7a2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 13/24] fix: end with a message when there is no memory to read
 a file

---
 src/kvtree.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 96e440f..243d8ca 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1435,10 +1435,25 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     return -1;
   }
 
+  /* check that the file is as big as the header claims */
+  struct stat statbuf;
+  int regular = (fstat(fd, &statbuf) == 0 && S_ISREG(statbuf.st_mode));
+  if (regular && filesize > (uint64_t) statbuf.st_size) {
+    kvtree_err("Invalid file size stored in %s @ %s:%d",
+      file, __FILE__, __LINE__
+    );
+    return -1;
+  }
+
   /* allocate a buffer to read the hash and crc */
   char* buf = (char*) malloc(filesize);
   if (buf == NULL) {
-    /* the size comes from the file, so it may be bogus */
+    if (regular) {
+      kvtree_abort(-1, "Failed to allocate %llu bytes to read %s @ %s:%d",
+        (unsigned long long) filesize, file, __FILE__, __LINE__);
+    }
+
+    /* the size may be bogus if we can not compare it to the file */
     kvtree_err("Failed to allocate %llu bytes to read %s @ %s:%d",
       (unsigned long long) filesize, file, __FILE__, __LINE__);
     return -1;
-- 
2.43.0


From 9c9055fe66d5399dd70ab089c40afa3e92b30976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 14/24] fix: match part file names literally in
 kvtree_read_scatter_single

---
 src/kvtree.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 243d8ca..eda0bd4 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -21,7 +21,6 @@
 #include <libgen.h>
 #include <dirent.h>
 #include <limits.h>
-#include <regex.h>
 
 
 /* need at least version 8.5 of queue.h from Berkeley */
@@ -1892,6 +1891,24 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
   return rc;
 }
 
+/* returns 1 if name is the prefix followed by ".0." and a number, 0 otherwise,
+ * the prefix is taken literally */
+static int kvtree_is_part_name(const char* name, const char* prefix, size_t prefix_len)
+{
+  if (strncmp(name, prefix, prefix_len) != 0) {
+    return 0;
+  }
+  name += prefix_len;
+
+  if (strncmp(name, ".0.", 3) != 0) {
+    return 0;
+  }
+  name += 3;
+
+  /* the rest must be digits, and at least one of them */
+  return (*name != '\0' && strspn(name, "0123456789") == strlen(name));
+}
+
 /*
  * Given a prefix passed to a kvtree_write_gather() (like "/tmp/rank2file",
  * read all the rank data from all the scattered subfiles, and construct a
@@ -1949,17 +1966,8 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
   char* prefix_dir = dirname(prefix_dir_copy);
   char* prefix_file = basename(prefix_file_copy);
 
-  /* Create our regex to match our prefix files */
-  char pattern[PATH_MAX];
-  snprintf(pattern, sizeof(pattern), "^%s\\.0\\.[0-9]+$", prefix_file);
-  pattern[sizeof(pattern) - 1] = '\0';
-
-  regex_t regex;
-  rc = regcomp(&regex, pattern, REG_EXTENDED);
-  if (rc) {
-    rc = KVTREE_FAILURE;
-    goto end;
-  }
+  /* length of prefix that part file names start with */
+  size_t prefix_len = strlen(prefix_file);
 
   DIR* d = opendir(prefix_dir);
   if (!d) {
@@ -1976,8 +1984,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
      * like "rank2file.".
      */
     /* Is this one of our subfiles?  It should have .0.x in the extension */
-    rc = regexec(&regex, dir->d_name, 0, NULL, 0);
-    if (rc == 0) {  /* Did we get both numbers in the extension? */
+    if (kvtree_is_part_name(dir->d_name, prefix_file, prefix_len)) {
       /* subfile matches */
 
       /* Construct the full path to the subfile kvtree */
-- 
2.43.0


From a57a2bf80ce8d24487de335d1651aaf87a7c70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 15/24] fix: release memory when reading gather files

---
 src/kvtree.c        | 1 +
 src/kvtree_mpi_io.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index eda0bd4..97bc2e0 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2007,6 +2007,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
             if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
               actual_ranks += kvtree_size(subfile_rank_tree);
             }
+            kvtree_delete(&subfile_rank_tree);
           }
         }
       }
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 45f8b87..115dcf6 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -500,6 +500,7 @@ static int kvtree_read_scatter_map(
   /* check for read errors */
   if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
     rc = KVTREE_FAILURE;
+    kvtree_free(&newfile);
     goto cleanup;
   }
 
-- 
2.43.0


From 2bae9aeddead23a42b762011b81a94d846cd16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 16/24] fix: accept a NULL element in
 kvtree_elem_extract_by_addr

---
 src/kvtree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 97bc2e0..9c5ef13 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -913,7 +913,9 @@ kvtree_elem* kvtree_elem_extract_int(kvtree* hash, int key)
 kvtree_elem* kvtree_elem_extract_by_addr(kvtree* hash, kvtree_elem* elem)
 {
   /* TODO: check that elem is really in hash */
-  LIST_REMOVE(elem, pointers);
+  if (elem != NULL) {
+    LIST_REMOVE(elem, pointers);
+  }
   return elem;
 }
 
-- 
2.43.0


From 4d88597f66b6427f9f0a43bede8cd9310e0fa1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:00 +0000
Subject: [PATCH 17/24] fix: start a new segment when data begins at a segment
 boundary

---
 src/kvtree_mpi_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 115dcf6..e3792b8 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -56,8 +56,12 @@ static int pick_writer(
     /* force rank 0 to start a segment, even if it has no bytes */
     starts_new = 1;
   } else if (count > 0) {
-    /* otherwise we only start a segment if our bytes overflow the boundary */
-    unsigned long segindex = offset / segsize;
+    /* otherwise we only start a segment if our bytes go beyond the segment
+     * that the byte before ours is in */
+    unsigned long segindex = 0;
+    if (offset > 0) {
+      segindex = (offset - 1) / segsize;
+    }
     unsigned long seglastbyte = (segindex + 1) * segsize - 1;
     unsigned long mylastbyte  = offset + count - 1;
     if (mylastbyte > seglastbyte) {
-- 
2.43.0


From 6f7a6508a341de1168b89939f81992802720489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:59 +0000
Subject: [PATCH 18/24] fix: gather file sets with long path prefixes

The names of part and index files were built in buffers of 1024 bytes and cut
off silently.  With a prefix of about 1020 characters or more, several parts
ended up under one name, and the data of all but the last was lost although
every call reported success.
---
 src/kvtree.c        | 10 ++++++----
 src/kvtree_mpi_io.c | 42 ++++++++++++++++++++----------------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 9c5ef13..938ac7a 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1857,21 +1857,23 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
     }
 
     /* build name for part file */
-    char filename[1024];
-    snprintf(filename, sizeof(filename), "%s.0.%d", prefix, writer);
+    char partname[1024];
+    snprintf(partname, sizeof(partname), ".0.%d", writer);
+    int filename_size = snprintf(NULL, 0, "%s%s", prefix, partname) + 1;
+    char* filename = (char*) KVTREE_MALLOC(filename_size);
+    snprintf(filename, filename_size, "%s%s", prefix, partname);
 
     /* write hash to file */
     if (kvtree_write_file(filename, entries) != KVTREE_SUCCESS) {
       rc = KVTREE_FAILURE;
       elem = NULL;
     }
+    kvtree_free(&filename);
 
     /* delete part hash and path */
     kvtree_delete(&entries);
 
     /* record file name of part in files hash, relative to prefix directory */
-    char partname[1024];
-    snprintf(partname, sizeof(partname), ".0.%d", writer);
     unsigned long offset = 0;
     kvtree* files_rank_hash = kvtree_set_kv_int(files_hash, "RANK", writer);
     kvtree_util_set_str(files_rank_hash, "FILE", partname);
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index e3792b8..1b2f918 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -132,6 +132,16 @@ static int pick_writer(
   return KVTREE_SUCCESS;
 }
 
+/* allocates and returns the path of a file in the set, which is the prefix
+ * followed by the suffix, caller must free with kvtree_free */
+static char* kvtree_gather_path(const char* prefix, const char* suffix)
+{
+  int size = snprintf(NULL, 0, "%s%s", prefix, suffix) + 1;
+  char* path = (char*) KVTREE_MALLOC(size);
+  snprintf(path, size, "%s%s", prefix, suffix);
+  return path;
+}
+
 static unsigned long kvtree_write_gather_map(
   const char* prefix,
   const char* file,
@@ -211,8 +221,7 @@ static unsigned long kvtree_write_gather_map(
     snprintf(mapfile, sizeof(mapfile), ".%d.%d", level, writer);
   }
 
-  char mappath[1024];
-  snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
+  char* mappath = kvtree_gather_path(prefix, mapfile);
 
   /* call gather recursively if there's another level */
   if (! allranks) {
@@ -268,6 +277,9 @@ static unsigned long kvtree_write_gather_map(
     }
   }
 
+  /* free the path */
+  kvtree_free(&mappath);
+
   /* free the hash */
   kvtree_delete(&save);
 
@@ -325,9 +337,8 @@ int kvtree_write_gather(
 
   /* define file name */
   char mapfile[1024];
-  char mappath[1024];
   snprintf(mapfile, sizeof(mapfile), ".0.%d", writer);
-  snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
+  char* mappath = kvtree_gather_path(prefix, mapfile);
 
   /* write map to files */
   unsigned long offset = 0;
@@ -380,6 +391,9 @@ int kvtree_write_gather(
     }
   }
 
+  /* free the path */
+  kvtree_free(&mappath);
+
   /* free the hash */
   kvtree_delete(&save);
 
@@ -467,14 +481,7 @@ static int kvtree_read_scatter_map(
     if (kvtree_util_get_str(elem_hash, "FILE", &value) == KVTREE_SUCCESS)
     {
       /* return string of full path to file to caller */
-      char mappath[1024];
-      snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
-      newfile = strdup(mappath);
-      if (newfile == NULL) {
-        kvtree_abort(-1, "Failed to duplicate file name @ %s:%d",
-          __FILE__, __LINE__
-        );
-      }
+      newfile = kvtree_gather_path(prefix, value);
     } else {
       rc = KVTREE_FAILURE;
     }
@@ -542,10 +549,6 @@ int kvtree_read_scatter(
   MPI_Comm_rank(comm, &rank_world);
   MPI_Comm_size(comm, &ranks_world);
 
-  /* build path to file */
-  char mappath[1024];
-  snprintf(mappath, sizeof(mappath), "%s", prefix);
-
   /* fetch file names and offsets containing file hash data */
   int valid = 0;
   char* file = NULL;
@@ -553,12 +556,7 @@ int kvtree_read_scatter(
   if (rank_world == 0) {
     /* rank 0 is only valid reader to start with */
     valid  = 1;
-    file   = strdup(mappath);
-    if (file == NULL) {
-      kvtree_abort(-1, "Failed to duplicate file name @ %s:%d",
-        __FILE__, __LINE__
-      );
-    }
+    file   = kvtree_gather_path(prefix, "");
     offset = 0;
   }
   if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
-- 
2.43.0


From 3f7feeab9cfae73f711fd754c45ea0cc352bbc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 19/24] fix: read gather sets by their index instead of by file
 names

kvtree_read_scatter_single took in every file in the directory that is named
like a part.  Parts left over from a set written to the same prefix before
were mixed in: reading a complete set failed, and when a part of the set was
damaged the old data could be returned as success.  Follow the file names
recorded in the root and index files, as the collective reader does.
---
 src/kvtree.c | 172 +++++++++++++++++++++------------------------------
 1 file changed, 72 insertions(+), 100 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 938ac7a..1781bf4 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -18,8 +18,6 @@
 #include <fcntl.h>
 #include <string.h>
 #include <errno.h>
-#include <libgen.h>
-#include <dirent.h>
 #include <limits.h>
 
 
@@ -1895,22 +1893,74 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
   return rc;
 }
 
-/* returns 1 if name is the prefix followed by ".0." and a number, 0 otherwise,
- * the prefix is taken literally */
-static int kvtree_is_part_name(const char* name, const char* prefix, size_t prefix_len)
-{
-  if (strncmp(name, prefix, prefix_len) != 0) {
-    return 0;
+/* read the file of a gather set whose name is the prefix followed by the
+ * suffix and all files listed below it, merge the entries of all ranks into
+ * data and add their number to count, level is the level the file must have
+ * or -1 for the root file, whose total number of ranks is returned in ranks */
+static int kvtree_read_scatter_file(
+  const char* prefix,
+  const char* suffix,
+  int level,
+  kvtree* data,
+  unsigned long* ranks,
+  unsigned long* count)
+{
+  /* build the full path to the file */
+  int path_size = snprintf(NULL, 0, "%s%s", prefix, suffix) + 1;
+  char* path = (char*) KVTREE_MALLOC(path_size);
+  snprintf(path, path_size, "%s%s", prefix, suffix);
+
+  /* read in the file, and get its level */
+  int file_level = -1;
+  kvtree* tree = kvtree_new();
+  int rc = kvtree_read_file(path, tree);
+  if (rc == KVTREE_SUCCESS) {
+    rc = kvtree_util_get_int(tree, "LEVEL", &file_level);
+  }
+
+  /* the root file can be at any level above the parts */
+  if (level < 0) {
+    if (rc == KVTREE_SUCCESS) {
+      rc = kvtree_util_get_unsigned_long(tree, "RANKS", ranks);
+    }
+    level = (file_level > 0) ? file_level : 1;
   }
-  name += prefix_len;
+  if (rc != KVTREE_SUCCESS || file_level != level) {
+    kvtree_err("Couldn't read gather file %s @ %s:%d",
+      path, __FILE__, __LINE__
+    );
+    kvtree_free(&path);
+    kvtree_delete(&tree);
+    return KVTREE_FAILURE;
+  }
+  kvtree_free(&path);
 
-  if (strncmp(name, ".0.", 3) != 0) {
-    return 0;
+  /* break off and remove the "RANK" subtree */
+  kvtree* rank_tree = kvtree_extract(tree, "RANK");
+  kvtree_delete(&tree);
+
+  if (level == 0) {
+    /* have a part file, copy the data of each rank */
+    kvtree_merge(data, rank_tree);
+    *count += (unsigned long) kvtree_size(rank_tree);
+  } else {
+    /* read each file of the next level */
+    kvtree_elem* elem;
+    for (elem = kvtree_elem_first(rank_tree);
+         elem != NULL;
+         elem = kvtree_elem_next(elem))
+    {
+      char* file = NULL;
+      if (kvtree_util_get_str(kvtree_elem_hash(elem), "FILE", &file) != KVTREE_SUCCESS ||
+          kvtree_read_scatter_file(prefix, file, level - 1, data, ranks, count) != KVTREE_SUCCESS)
+      {
+        rc = KVTREE_FAILURE;
+      }
+    }
   }
-  name += 3;
+  kvtree_delete(&rank_tree);
 
-  /* the rest must be digits, and at least one of them */
-  return (*name != '\0' && strspn(name, "0123456789") == strlen(name));
+  return rc;
 }
 
 /*
@@ -1936,96 +1986,18 @@ static int kvtree_is_part_name(const char* name, const char* prefix, size_t pref
  */
 int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 {
-  /*
-   * Read in high level kvtree.
-   */
+  /* start with the root file and follow the names of the subfiles,
+   * there may be other files whose names look like those of subfiles,
+   * such as those of a set that was written to the same prefix before */
+  unsigned long expected_ranks = 0;
+  unsigned long actual_ranks = 0;
   kvtree* final_tree = kvtree_new();
-  int rc = kvtree_read_file(prefix, final_tree);
-  if (rc != KVTREE_SUCCESS) {
-    kvtree_delete(&final_tree);
-    kvtree_err("Couldn't read in high level kvtree file %s\n", prefix);
-    return rc;
-  }
+  int rc = kvtree_read_scatter_file(prefix, "", -1, final_tree, &expected_ranks, &actual_ranks);
 
-  unsigned long expected_ranks;
-  rc = kvtree_util_get_unsigned_long(final_tree, "RANKS", &expected_ranks);
-  if (rc != KVTREE_SUCCESS) {
-    kvtree_delete(&final_tree);
-    kvtree_err("Couldn't get RANKS for %s\n", prefix);
-    return rc;
-  }
-  kvtree_delete(&final_tree);
-
-  /* Start construction of the final tree that we will return */
-  final_tree = kvtree_new();
-
-  /* Look at all the subfiles with our prefix and read in the file lists */
-  char* prefix_dir_copy = strdup(prefix);
-  char* prefix_file_copy = strdup(prefix);
-  if (prefix_dir_copy == NULL || prefix_file_copy == NULL) {
-    kvtree_abort(-1, "Failed to duplicate prefix string @ %s:%d",
-      __FILE__, __LINE__
-    );
-  }
-  char* prefix_dir = dirname(prefix_dir_copy);
-  char* prefix_file = basename(prefix_file_copy);
-
-  /* length of prefix that part file names start with */
-  size_t prefix_len = strlen(prefix_file);
-
-  DIR* d = opendir(prefix_dir);
-  if (!d) {
-    rc = KVTREE_FAILURE;
-    goto end;
-  }
-
-  /* For each file/dir in our prefix dir */
-  unsigned long actual_ranks = 0;
-  struct dirent* dir;
-  while ((dir = readdir(d)) != NULL) {
-    /*
-     * Search for any file starting with "prefix_file."
-     * like "rank2file.".
-     */
-    /* Is this one of our subfiles?  It should have .0.x in the extension */
-    if (kvtree_is_part_name(dir->d_name, prefix_file, prefix_len)) {
-      /* subfile matches */
-
-      /* Construct the full path to the subfile kvtree */
-      char tmp[PATH_MAX];
-      memset(tmp, 0, sizeof(tmp));
-      snprintf(tmp, sizeof(tmp), "%s/%s", prefix_dir, dir->d_name);
-      tmp[sizeof(tmp) - 1] = '\0';
-
-      /* Read in the subfile */
-      kvtree* subfile_tree = kvtree_new();
-      rc = kvtree_read_file(tmp, subfile_tree);
-      if (rc == KVTREE_SUCCESS) {
-        /* Sanity: each subfile we want will have LEVEL=0 */
-        unsigned long level;
-        rc = kvtree_util_get_unsigned_long(subfile_tree, "LEVEL", &level);
-        if (rc == KVTREE_SUCCESS && level == 0) {
-          /* Break off and remove the "RANK" subtree from the rank2file tree */
-          kvtree* subfile_rank_tree = kvtree_extract(subfile_tree, "RANK");
-          if (subfile_rank_tree) {
-            if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
-              actual_ranks += kvtree_size(subfile_rank_tree);
-            }
-            kvtree_delete(&subfile_rank_tree);
-          }
-        }
-      }
-      kvtree_delete(&subfile_tree);
-    }
-  }
-  closedir(d);
+  /* return what we have read */
   kvtree_merge(data, final_tree);
-  rc = KVTREE_SUCCESS;
-
-end:
-  kvtree_free(&prefix_dir_copy);
-  kvtree_free(&prefix_file_copy);
   kvtree_delete(&final_tree);
+
   if (rc != KVTREE_SUCCESS || actual_ranks != expected_ranks) {
     return KVTREE_FAILURE;
   }
-- 
2.43.0


From 39fe11b5b3e9c8e0744a30ebf57fc24ac28a8756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 20/24] fix: kvtree_set_kv does not leak a tree when the key or
 value is NULL

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 1781bf4..9d61a2a 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -702,7 +702,7 @@ int kvtree_list_int(const kvtree* hash, int* n, int** v)
 /** shortcut to create a key and subkey in a hash with one call */
 kvtree* kvtree_set_kv(kvtree* hash, const char* key, const char* val)
 {
-  if (hash == NULL) {
+  if (hash == NULL || key == NULL) {
     return NULL;
   }
 
@@ -712,7 +712,7 @@ kvtree* kvtree_set_kv(kvtree* hash, const char* key, const char* val)
   }
 
   kvtree* v = kvtree_get(k, val);
-  if (v == NULL) {
+  if (v == NULL && val != NULL) {
     v = kvtree_set(k, val, kvtree_new());
   }
 
-- 
2.43.0


From 2eb27ac0f92863551e94d90b0a8c8b3eae9b4439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 21/24] fix: strings lent by a tree can be given to the calls
 that replace or remove them

---
 src/kvtree.c      | 10 ++++--
 src/kvtree_util.c | 86 +++++++++++++++++++++++++++++------------------
 2 files changed, 61 insertions(+), 35 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 9d61a2a..f7e2d72 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -770,10 +770,14 @@ int kvtree_unset_kv(kvtree* hash, const char* key, const char* val)
     return KVTREE_SUCCESS;
   }
 
-  kvtree* v = kvtree_get(hash, key);
+  /* the key may be a string that belongs to the value to be removed,
+   * so look up its element before anything is freed */
+  kvtree_elem* elem = kvtree_elem_get(hash, key);
+  kvtree* v = kvtree_elem_hash(elem);
   int rc = kvtree_unset(v, val);
-  if (kvtree_size(v) == 0) {
-    rc = kvtree_unset(hash, key);
+  if (elem != NULL && kvtree_size(v) == 0) {
+    kvtree_elem_extract_by_addr(hash, elem);
+    rc = kvtree_elem_delete(elem);
   }
 
   return rc;
diff --git a/src/kvtree_util.c b/src/kvtree_util.c
index 0af2fc5..a1cc746 100644
--- a/src/kvtree_util.c
+++ b/src/kvtree_util.c
@@ -14,90 +14,112 @@
 /* need at least version 8.5 of queue.h from Berkeley */
 #include "queue.h"
 
+/* set tree as the value of key, replacing any current setting, the
+ * current setting is freed last, since the caller may have taken key
+ * or the new value from it */
+static void kvtree_util_replace(kvtree* hash, const char* key, kvtree* tree)
+{
+  if (hash == NULL || key == NULL) {
+    kvtree_delete(&tree);
+    return;
+  }
+  kvtree_set(hash, key, tree);
+}
+
 int kvtree_util_set_bytecount(kvtree* hash, const char* key, unsigned long count)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, build the new value */
+  kvtree* tree = kvtree_new();
+  kvtree_setf(tree, NULL, "%lu", count);
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %lu", key, count);
+  /* then replace any current setting */
+  kvtree_util_replace(hash, key, tree);
 
   return KVTREE_SUCCESS;
 }
 
 int kvtree_util_set_crc32(kvtree* hash, const char* key, uLong crc)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, build the new value */
+  kvtree* tree = kvtree_new();
+  kvtree_setf(tree, NULL, "%#x", (uint32_t) crc);
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %#x", key, (uint32_t) crc);
+  /* then replace any current setting */
+  kvtree_util_replace(hash, key, tree);
 
   return KVTREE_SUCCESS;
 }
 
 int kvtree_util_set_int(kvtree* hash, const char* key, int value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, build the new value */
+  kvtree* tree = kvtree_new();
+  kvtree_setf(tree, kvtree_new(), "%d", value);
 
-  /* then set the new value */
-  kvtree_set_kv_int(hash, key, value);
+  /* then replace any current setting */
+  kvtree_util_replace(hash, key, tree);
 
   return KVTREE_SUCCESS;
 }
 
 int kvtree_util_set_unsigned_long(kvtree* hash, const char* key, unsigned long value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, build the new value */
+  kvtree* tree = kvtree_new();
+  kvtree_setf(tree, NULL, "%lu", value);
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %lu", key, value);
+  /* then replace any current setting */
+  kvtree_util_replace(hash, key, tree);
 
   return KVTREE_SUCCESS;
 }
 
 int kvtree_util_set_str(kvtree* hash, const char* key, const char* value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, build the new value */
+  kvtree* tree = kvtree_new();
+  if (value != NULL) {
+    kvtree_set(tree, value, kvtree_new());
+  }
 
-  /* then set the new value */
-  kvtree_set_kv(hash, key, value);
+  /* then replace any current setting */
+  kvtree_util_replace(hash, key, tree);
 
   return KVTREE_SUCCESS;
 }
 
 int kvtree_util_set_int64(kvtree* hash, const char* key, int64_t value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, build the new value */
+  kvtree* tree = kvtree_new();
+  kvtree_setf(tree, NULL, "%lld", value);
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %lld", key, value);
+  /* then replace any current setting */
+  kvtree_util_replace(hash, key, tree);
 
   return KVTREE_SUCCESS;
 }
 
 int kvtree_util_set_double(kvtree* hash, const char* key, double value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, build the new value */
+  kvtree* tree = kvtree_new();
+  kvtree_setf(tree, NULL, "%f", value);
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %f", key, value);
+  /* then replace any current setting */
+  kvtree_util_replace(hash, key, tree);
 
   return KVTREE_SUCCESS;
 }
 
 int kvtree_util_set_ptr(kvtree* hash, const char* key, void* value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
+  /* first, build the new value */
+  kvtree* tree = kvtree_new();
+  kvtree_setf(tree, NULL, "%p", value);
 
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %p", key, value);
+  /* then replace any current setting */
+  kvtree_util_replace(hash, key, tree);
 
   return KVTREE_SUCCESS;
 }
-- 
2.43.0


From 52ca4056b2d6af37a1f37b82be25f6bb24ec4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:13 +0000
Subject: [PATCH 22/24] fix: kvtree_exchange_sendq does not leak a copy when
 there is no tree to queue in

---
 src/kvtree_mpi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index fc9ce37..0cc16ae 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -221,6 +221,11 @@ int kvtree_bcast(kvtree* hash, int root, MPI_Comm comm)
 /* insert message destined for rank into send kvtree */
 int kvtree_exchange_sendq(kvtree* send_hash, int rank, const kvtree* msg)
 {
+  /* check that we have a hash to queue the message in */
+  if (send_hash == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /* see whether we've already got data for this rank,
    * if so, merge it in, otherwise create a copy and add it */
   kvtree* hash = kvtree_getf(send_hash, "%d", rank);
-- 
2.43.0


From 33cb61201db2a6883a25218548cdb8bcdce6bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:40 +0000
Subject: [PATCH 23/24] fix: the CRC covers the whole file also beyond 4 GiB

---
 src/kvtree.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index f7e2d72..b071faf 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1126,6 +1126,21 @@ size_t kvtree_persist_size(const kvtree* hash)
   return size;
 }
 
+/** computes the crc32 of a buffer of any size, crc32() itself takes the
+ * length as an unsigned int */
+static uLong kvtree_crc32(const void* buf, size_t size)
+{
+  const Bytef* ptr = (const Bytef*) buf;
+  uLong crc = crc32(0L, Z_NULL, 0);
+  while (size > 0) {
+    uInt count = (size < (size_t) INT_MAX) ? (uInt) size : (uInt) INT_MAX;
+    crc = crc32(crc, ptr, count);
+    ptr += count;
+    size -= count;
+  }
+  return crc;
+}
+
 /** persist hash in newly allocated buffer,
  * return buffer address and size to be freed by caller */
 int kvtree_write_persist(void** ptr_buf, size_t* ptr_size, const kvtree* hash)
@@ -1162,8 +1177,7 @@ int kvtree_write_persist(void** ptr_buf, size_t* ptr_size, const kvtree* hash)
   size += kvtree_pack(buf + size, hash);
 
   /* compute the crc over the length of the file */
-  uLong crc = crc32(0L, Z_NULL, 0);
-  crc = crc32(crc, (const Bytef*) buf, (uInt) size);
+  uLong crc = kvtree_crc32(buf, size);
 
   /* write the crc to the buffer */
   kvtree_pack_uint32_t(buf, filesize, &size, (uint32_t) crc);
@@ -1487,8 +1501,7 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   int crc_set = flags & KVTREE_FILE_FLAGS_CRC32;
   if (crc_set) {
     /* compute the crc value of the data */
-    uLong crc = crc32(0L, Z_NULL, 0);
-    crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));
+    uLong crc = kvtree_crc32(buf, (size_t) filesize - sizeof(uint32_t));
 
     /* read the crc value */
     uint32_t crc_file_network, crc_file;
-- 
2.43.0


From 2123d383f7eddf14eeda4533cd5ab1a903e265ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 24/24] fix: kvtree_read_with_lock accepts a file of 4 GiB
 minus one byte

---
 src/kvtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index b071faf..ddaeaf9 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1622,7 +1622,7 @@ int kvtree_read_with_lock(const char* file, kvtree* hash)
 {
   int fd = kvtree_read_write_with_lock(file, hash, 0);
   if (fd >= 0) {
-    int rc;
+    ssize_t rc;
     /* read the file into the hash */
     rc = kvtree_read_fd(file, fd, hash);
     if (rc == -1) {
-- 
2.43.0

