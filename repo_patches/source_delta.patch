From 3d93d0ad7b8d4a13f9f399e4163cb912427c27c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 01/65] fix: release the path lock (or buffer) when
 make_absolute_path fails

The shared path buffer stayed locked forever when building an absolute path
failed, e.g. for an overlong relative path, and the malloc'd variant leaked.
---
 src/littlefs_fs.c | 13 ++++++++++++-
 src/romfs_fs.c    | 13 ++++++++++++-
 src/tar_fs.c      | 13 ++++++++++++-
 src/tar_rsrc_fs.c | 13 ++++++++++++-
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index d84866a..04ebb74 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -132,8 +132,19 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+    return status;
+  }
+
+  // Callers only release the path on success
+#ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
+  if(!force_malloc) {
+    UNLOCK();
+    return status;
+  }
+#endif
+  evfs_free(abs_path);
 
   return status;
 }
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 279cf7c..16887af 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -118,8 +118,19 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+    return status;
+  }
+
+  // Callers only release the path on success
+#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
+  if(!force_malloc) {
+    UNLOCK();
+    return status;
+  }
+#endif
+  evfs_free(abs_path);
 
   return status;
 }
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 9311e12..89c0fde 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -123,8 +123,19 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+    return status;
+  }
+
+  // Callers only release the path on success
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+  if(!force_malloc) {
+    UNLOCK();
+    return status;
+  }
+#endif
+  evfs_free(abs_path);
 
   return status;
 }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 15854db..88cad2b 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -133,8 +133,19 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
+    return status;
+  }
+
+  // Callers only release the path on success
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+  if(!force_malloc) {
+    UNLOCK();
+    return status;
+  }
+#endif
+  evfs_free(abs_path);
 
   return status;
 }
-- 
2.43.0


From 900a30fc1620771202b693ddfededdd999aba4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 02/65] fix: release the new VFS object when its registration
 fails

evfs_register() refuses a VFS before evfs_init(); the shims, fatfs and littlefs
leaked the object (and its lock) in that case.
---
 src/fatfs_fs.c    |  6 +++++-
 src/littlefs_fs.c | 10 +++++++++-
 src/shim_jail.c   | 10 +++++++++-
 src/shim_rotate.c | 10 +++++++++-
 src/shim_trace.c  |  6 +++++-
 5 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e5c15cb..84a8990 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -552,6 +552,10 @@ int evfs_register_fatfs(const char *vfs_name, uint8_t pdrv, bool default_vfs) {
   
   new_vfs->m_path_root_component = fatfs__path_root_component;
 
-  return evfs_register(new_vfs, default_vfs);
+  int err = evfs_register(new_vfs, default_vfs);
+  if(err != EVFS_OK)
+    evfs_free(new_vfs);
+
+  return err;
 }
 
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 04ebb74..2dde477 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -627,7 +627,15 @@ int evfs_register_littlefs(const char *vfs_name, lfs_t *lfs, bool default_vfs) {
   }
 #endif
 
-  return evfs_register(new_vfs, default_vfs);
+  int err = evfs_register(new_vfs, default_vfs);
+  if(err != EVFS_OK) {
+#ifdef USE_LFS_LOCK
+    evfs__lock_destroy(&fs_data->lfs_lock);
+#endif
+    evfs_free(new_vfs);
+  }
+
+  return err;
 }
 
 
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 70f3b2d..1dfb61a 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -552,6 +552,14 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   }
 #endif
 
-  return evfs_register(shim_vfs, default_vfs);
+  int err = evfs_register(shim_vfs, default_vfs);
+  if(err != EVFS_OK) {
+#ifdef USE_JAIL_LOCK
+    evfs__lock_destroy(&shim_data->jail_lock);
+#endif
+    evfs_free(shim_vfs);
+  }
+
+  return err;
 }
 
diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 8d6f611..125a118 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1503,6 +1503,14 @@ int evfs_register_rotate(const char *vfs_name, const char *old_vfs_name, RotateC
 #endif
 
 
-  return evfs_register(shim_vfs, default_vfs);
+  int err = evfs_register(shim_vfs, default_vfs);
+  if(err != EVFS_OK) {
+#ifdef USE_ROT_LOCK
+    evfs__lock_destroy(&shim_data->buf.buf_lock);
+#endif
+    evfs_free(shim_vfs);
+  }
+
+  return err;
 }
 
diff --git a/src/shim_trace.c b/src/shim_trace.c
index 497dbb5..baedd80 100644
--- a/src/shim_trace.c
+++ b/src/shim_trace.c
@@ -574,6 +574,10 @@ int evfs_register_trace(const char *vfs_name, const char *old_vfs_name,
 
   shim_vfs->m_path_root_component = trace__path_root_component;
 
-  return evfs_register(shim_vfs, default_vfs);
+  int err = evfs_register(shim_vfs, default_vfs);
+  if(err != EVFS_OK)
+    evfs_free(shim_vfs);
+
+  return err;
 }
 
-- 
2.43.0


From ae95d5c6d57e4db759778e7f0734fe3138515b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 03/65] fix: release the tar index on registration failure and
 report a failed index build

---
 src/tar_fs.c      | 26 +++++++++++++++++++++++---
 src/tar_rsrc_fs.c | 26 +++++++++++++++++++++++---
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 89c0fde..3d83468 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -179,6 +179,10 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
 
 
   int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
+  if(err != EVFS_OK) {
+    evfs_free(ht->keys);
+    ht->keys = NULL;
+  }
   return err;
 }
 
@@ -248,8 +252,10 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
       ((char *)key.data)[--key.length] = '\0';
     }
 
-    if(!dh_insert(&ht->hash_table, key, &entry))
+    if(!dh_insert(&ht->hash_table, key, &entry)) {
+      tarfs__index_hash_free(ht);
       return EVFS_ERR;
+    }
 
   } while(tar_iter_next(tar_it));
 
@@ -573,7 +579,11 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
   TarFileIterator tar_it;
   tar_iter_init(&tar_it, fs_data->tar_file);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int err = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(err != EVFS_OK) {
+    evfs_free(new_vfs);
+    THROW(err);
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -592,12 +602,22 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
 #endif
 
-  return evfs_register(new_vfs, default_vfs);
+  err = evfs_register(new_vfs, default_vfs);
+  if(err != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
+#ifdef USE_TARFS_LOCK
+    evfs__lock_destroy(&fs_data->tfs_lock);
+#endif
+    evfs_free(new_vfs);
+  }
+
+  return err;
 }
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 88cad2b..6fe6932 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -189,6 +189,10 @@ static int tarfs__index_hash_init(EvfsTarIndex *ht, int total_files, size_t tota
 
 
   int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
+  if(err != EVFS_OK) {
+    evfs_free(ht->keys);
+    ht->keys = NULL;
+  }
   return err;
 }
 
@@ -258,8 +262,10 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
       ((char *)key.data)[--key.length] = '\0';
     }
 
-    if(!dh_insert(&ht->hash_table, key, &entry))
+    if(!dh_insert(&ht->hash_table, key, &entry)) {
+      tarfs__index_hash_free(ht);
       return EVFS_ERR;
+    }
 
   } while(tar_rsrc_iter_next(tar_it));
 
@@ -597,7 +603,11 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
   TarRsrcIterator tar_it;
   tar_rsrc_iter_init(&tar_it, resource, resource_len);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int err = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(err != EVFS_OK) {
+    evfs_free(new_vfs);
+    THROW(err);
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -616,12 +626,22 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
 #endif
 
-  return evfs_register(new_vfs, default_vfs);
+  err = evfs_register(new_vfs, default_vfs);
+  if(err != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
+#ifdef USE_TARFS_LOCK
+    evfs__lock_destroy(&fs_data->tfs_lock);
+#endif
+    evfs_free(new_vfs);
+  }
+
+  return err;
 }
 
 
-- 
2.43.0


From 572e94800256cbd24add1c9db65c55fa5af5d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 04/65] fix: release the Romfs object when its image is invalid
 or registration fails

---
 include/evfs/romfs_common.h |  1 +
 src/romfs_common.c          | 14 +++++++++++---
 src/romfs_fs.c              | 16 +++++++++++++---
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index 0fcc3d7..282efba 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -98,6 +98,7 @@ static inline int romfs_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHe
   return fs->lookup_abs_path(fs, path, hdr);
 }
 
+void romfs_free(Romfs *fs);
 void romfs_unmount(Romfs *fs);
 
 #ifdef __cplusplus
diff --git a/src/romfs_common.c b/src/romfs_common.c
index 0e163f1..6912317 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -249,6 +249,10 @@ static int romfs__fast_index_init(RomfsIndex *ht, int total_files, size_t total_
 
 
   int err = dh_init(&ht->hash_table, &s_hash_init, NULL) ? EVFS_OK : EVFS_ERR;
+  if(err != EVFS_OK) {
+    evfs_free(ht->keys);
+    ht->keys = NULL;
+  }
   return err;
 }
 
@@ -476,12 +480,16 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg) {
 }
 
 
-void romfs_unmount(Romfs *fs) {
-  fs->unmount(fs);
-
+// Release everything acquired by romfs_init()
+void romfs_free(Romfs *fs) {
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
   romfs__fast_index_free(&fs->fast_index);
 #endif
+}
+
 
+void romfs_unmount(Romfs *fs) {
+  fs->unmount(fs);
+  romfs_free(fs);
 }
 
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 16887af..b2e5d90 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -591,10 +591,20 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
     .unmount    = romfs_unmount_image
   };*/
   int status = romfs_init(&fs_data->romfs, cfg);
-  if(status != EVFS_OK)
-    return status;
+  if(status == EVFS_OK) {
+    status = evfs_register(new_vfs, default_vfs);
+    if(status != EVFS_OK)
+      romfs_free(&fs_data->romfs);
+  }
 
-  return evfs_register(new_vfs, default_vfs);
+  if(status != EVFS_OK) {
+#ifdef USE_ROMFS_LOCK
+    evfs__lock_destroy(&fs_data->romfs_lock);
+#endif
+    evfs_free(new_vfs);
+  }
+
+  return status;
 }
 
 
-- 
2.43.0


From f6d320428937e6119f805a9d8523d7a8aafa1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 05/65] fix: do not format or close an image whose reopening
 failed

---
 src/fatfs_image.c    | 7 +++++--
 src/littlefs_image.c | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 914fbd1..7b0537e 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -66,8 +66,11 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
 #if FF_FS_READONLY == 0
       // Reopen for formatting
       evfs_file_close(img->fh);
-      evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
-
+      status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+      if(status != EVFS_OK) {
+        img->fh = NULL;
+        return status;
+      }
 
       char drive_path[3];
       char buf[FF_MAX_SS*4];
diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 2e395ed..f3ef3f9 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -52,6 +52,10 @@ int littlefs_make_image(const char *img_path, struct lfs_config *cfg) {
       // Reopen for formatting
       evfs_file_close(img->fh);
       status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+      if(status != EVFS_OK) {
+        img->fh = NULL;
+        return status;
+      }
 
       lfs_t lfs;
       status = (lfs_format(&lfs, cfg) == LFS_ERR_OK) ? EVFS_OK : EVFS_ERR;
-- 
2.43.0


From 5a42cc7b70373b261a8af4e6a8e683bff3b3fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 06/65] fix: evfs_copy_to_file passes the caller's buffer on

---
 include/evfs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs.h b/include/evfs.h
index c687258..19ffc8f 100644
--- a/include/evfs.h
+++ b/include/evfs.h
@@ -348,7 +348,7 @@ static inline int evfs_vfs_ctrl(int op, void *arg) {
 int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size, const char *vfs_name);
 
 static inline int evfs_copy_to_file(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size) {
-  return evfs_copy_to_file_ex(dest_path, fh, NULL, 0, NULL);
+  return evfs_copy_to_file_ex(dest_path, fh, buf, buf_size, NULL);
 }
 
 
-- 
2.43.0


From 9c96e71bee0625175b9928a332411223f0a3387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 07/65] fix: evfs_path_root_component_ex does not report an
 absolute path on failure

---
 src/evfs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 8c3d0aa..106b649 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -961,9 +961,9 @@ Returns:
   true when the path is absolute
 */
 bool evfs_path_root_component_ex(const char *path, StringRange *root, const char *vfs_name) {
-  if(PTR_CHECK(path) || PTR_CHECK(root)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(path) || PTR_CHECK(root)) return false;
   Evfs *vfs = evfs__get_vfs(vfs_name);
-  if(!vfs) THROW(EVFS_ERR_NO_VFS);
+  if(!vfs) return false;
 
   return vfs->m_path_root_component(vfs, path, root);
 }
-- 
2.43.0


From 8417b9f413ca42c1f0a18334d5e837482887e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 08/65] fix: reject NULL arguments in the remaining public
 functions

---
 src/evfs.c      | 10 +++++++++-
 src/evfs_path.c |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index 106b649..0ede153 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -504,6 +504,8 @@ Returns:
   EVFS_OK on success
 */
 int evfs_vfs_open(Evfs *vfs, const char *path, EvfsFile **fh, int flags) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
+
   *fh = (EvfsFile *)evfs_malloc(vfs->vfs_file_size);
   if(MEM_CHECK(*fh)) return EVFS_ERR_ALLOC;
 
@@ -782,6 +784,8 @@ Returns:
   EVFS_OK on success
 */
 int evfs_vfs_open_dir(Evfs *vfs, const char *path, EvfsDir **dh) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(dh)) return EVFS_ERR_BAD_ARG;
+
   if(vfs->m_open_dir == default__open_dir) return EVFS_ERR_NO_SUPPORT; // Avoid wasted malloc()
 
 
@@ -1117,7 +1121,7 @@ Returns:
   true if path is absolute
 */
 bool evfs_vfs_path_is_absolute(Evfs *vfs, const char *path) {
-  if(PTR_CHECK(path)) return false;
+  if(PTR_CHECK(vfs) || PTR_CHECK(path)) return false;
 
   StringRange root;
   return vfs->m_path_root_component(vfs, path, &root);
@@ -1141,6 +1145,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_file_ctrl(EvfsFile *fh, int cmd, void *arg) {
+  if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
   return fh->methods->m_ctrl(fh, cmd, arg);
 }
 
@@ -1428,6 +1433,8 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
+  if(PTR_CHECK(fh) || PTR_CHECK(fmt)) return EVFS_ERR_BAD_ARG;
+
   va_list args;
   char *buf;
 
@@ -1457,6 +1464,7 @@ Returns:
   Number of bytes written on success or negative error code on failure
 */
 int evfs_file_puts(EvfsFile *fh, const char *str) {
+  if(PTR_CHECK(fh) || PTR_CHECK(str)) return EVFS_ERR_BAD_ARG;
   return evfs_file_write(fh, str, strlen(str));
 }
 
diff --git a/src/evfs_path.c b/src/evfs_path.c
index b36e66d..05aafd1 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -172,6 +172,8 @@ int evfs_vfs_path_dirname(Evfs *vfs, const char *path, StringRange *head) {
 
 
 int evfs_vfs_path_join_str(Evfs *vfs, const char *head, const char *tail, StringRange *joined) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(head) || PTR_CHECK(tail) || PTR_CHECK(joined)) return EVFS_ERR_BAD_ARG;
+
   StringRange head_r, tail_r;
   range_init(&head_r, head, strlen(head));
   range_init(&tail_r, tail, strlen(tail));
@@ -703,6 +705,8 @@ static int path_absolute_from_rel_overlap(Evfs *vfs, const char *path, StringRan
 
 
 int evfs_vfs_scan_path(Evfs *vfs, const char *path, StringRange *element) {
+  if(PTR_CHECK(vfs) || PTR_CHECK(element)) return EVFS_ERR_BAD_ARG;
+
   bool new_tok;
 
   if(path) {
-- 
2.43.0


From 9e27f174f82ce8db5e087f658685502849329887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 09/65] fix: reading an archive member advances by what was
 read and fails when seeking fails

---
 src/romfs_fs.c | 7 +++++--
 src/tar_fs.c   | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index b2e5d90..a0b78b1 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -201,9 +201,11 @@ static ptrdiff_t romfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   LOCK();
   evfs_off_t data_offset = FILE_OFFSET(&fil->hdr) + fil->hdr.header_len + fil->read_pos;
   ptrdiff_t rval = romfs_read(&fs_data->romfs, data_offset, buf, size);
-  fil->read_pos += size;
   UNLOCK();
 
+  if(rval > 0)
+    fil->read_pos += rval;
+
   //DPRINT("## READ: @ %ld,  %ld  '%02X'", fil->read_pos-size, size, *((uint8_t *)buf));
 
   return rval;
@@ -617,7 +619,8 @@ static void romfs_unmount_image(Romfs *fs) {
 
 static ptrdiff_t romfs_read_image(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
   EvfsFile *image = (EvfsFile *)fs->ctx;
-  evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  int err = evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  if(err != EVFS_OK) return err;
   return evfs_file_read(image, buf, size);
 }
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 3d83468..faefb9a 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -303,11 +303,14 @@ static ptrdiff_t tarfs__file_read(EvfsFile *fh, void *buf, size_t size) {
     size = remaining;
 
   LOCK();
-  evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
-  fil->read_pos += size;
-  ptrdiff_t rval = evfs_file_read(fs_data->tar_file, buf, size);
+  ptrdiff_t rval = evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
+  if(rval == EVFS_OK)
+    rval = evfs_file_read(fs_data->tar_file, buf, size);
   UNLOCK();
 
+  if(rval > 0)
+    fil->read_pos += rval;
+
   return rval;
 }
 
-- 
2.43.0


From be2147d9708717d2283f6ae6afbf869d007d1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 10/65] fix: opening a missing tar member does not look at an
 unset index entry

---
 src/tar_fs.c      | 2 +-
 src/tar_rsrc_fs.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index faefb9a..99fcd5f 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -409,7 +409,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     FREE_ABS(abs_path);
   }
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 6fe6932..9d3fa03 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -427,7 +427,7 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     FREE_ABS(abs_path);
   }
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
-- 
2.43.0


From dcb7370b4138072978dc947a7a6501a91932396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:55 +0000
Subject: [PATCH 11/65] fix: a jail reports a path it cannot convert instead of
 passing on a partial one

---
 src/shim_jail.c | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 1dfb61a..30f7fa4 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -81,7 +81,7 @@ typedef struct JailDir_s {
 
 
 // Convert a jailed path into a real path on the base VFS
-static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
+static int unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
   AppendRange real_r = *(AppendRange *)real_path;
@@ -91,7 +91,8 @@ static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   range_cat_char(&real_r, EVFS_DIR_SEP);
 
   // Convert path to absolute within the jail subtree
-  evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  if(status != EVFS_OK) return status;
 
 //  DPRINT("Unjail: '%.*s'", RANGE_FMT(real_path));
 
@@ -106,6 +107,8 @@ static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   }
 
 //  DPRINT("\t\t'%.*s'", RANGE_FMT(real_path));
+
+  return EVFS_OK;
 }
 
 
@@ -276,9 +279,10 @@ static int jail__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
   UNLOCK();
   
   if(status == EVFS_OK) {
@@ -304,9 +308,10 @@ static int jail__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
   UNLOCK();
 
   return status;
@@ -320,9 +325,10 @@ static int jail__delete(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -335,13 +341,15 @@ static int jail__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 
   LOCK();
   StringRange real_old_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, old_path, &real_old_path_r);
+  int status = unjail_path(vfs, old_path, &real_old_path_r);
 
   char real_new_path[EVFS_MAX_PATH];
   StringRange real_new_path_r = RANGE_FROM_ARRAY(real_new_path);
-  unjail_path(vfs, new_path, &real_new_path_r);
+  if(status == EVFS_OK)
+    status = unjail_path(vfs, new_path, &real_new_path_r);
 
-  int status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
   UNLOCK();
 
   return status;
@@ -354,9 +362,10 @@ static int jail__make_dir(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -374,9 +383,10 @@ static int jail__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
   UNLOCK();
 
   if(status == EVFS_OK) {
@@ -495,7 +505,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const char *jail_root, bool default_vfs) {
-  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name) || PTR_CHECK(jail_root)) return EVFS_ERR_BAD_ARG;
 
   Evfs *base_vfs, *shim_vfs;
   JailData *shim_data;
@@ -506,7 +516,8 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   // Convert jail root to absolute
   char abs_root[EVFS_MAX_PATH];
   StringRange abs_root_r = RANGE_FROM_ARRAY(abs_root);
-  evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  int err = evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  if(err != EVFS_OK) return err;
 
   // Construct a new VFS
   // We have four objects allocated together [Evfs][JailData][char[]][char[]]
@@ -552,7 +563,7 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   }
 #endif
 
-  int err = evfs_register(shim_vfs, default_vfs);
+  err = evfs_register(shim_vfs, default_vfs);
   if(err != EVFS_OK) {
 #ifdef USE_JAIL_LOCK
     evfs__lock_destroy(&shim_data->jail_lock);
-- 
2.43.0


From ea39fb57d1bff3beccdd1dac2b7edcec1afb2cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 12/65] fix: changing the current directory of tar, romfs,
 littlefs and jail filesystems honours failing joins and over-long paths

---
 src/littlefs_fs.c | 22 ++++++++++++++++------
 src/romfs_fs.c    | 24 +++++++++++++++---------
 src/shim_jail.c   | 22 ++++++++++++++++------
 src/tar_fs.c      | 22 ++++++++++++++++------
 src/tar_rsrc_fs.c | 22 ++++++++++++++++------
 5 files changed, 79 insertions(+), 33 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 2dde477..15c5300 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -486,6 +486,9 @@ static int littlefs__set_cur_dir(Evfs *vfs, const char *path) {
     // Confirm the path exists
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
+
+    if(strlen(path) >= sizeof(fs_data->cur_dir))
+      return EVFS_ERR_OVERFLOW;
   
     strncpy(fs_data->cur_dir, path, LFS_NAME_MAX-1);
     fs_data->cur_dir[LFS_NAME_MAX-1] = '\0';
@@ -502,18 +505,25 @@ static int littlefs__set_cur_dir(Evfs *vfs, const char *path) {
 
     range_init(&joined, joined_path, joined_size);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    int err = evfs_vfs_path_join(vfs, &head, &tail, &joined);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+    if(err == EVFS_OK && !evfs__vfs_existing_dir(vfs, joined_path))
+      err = EVFS_ERR_NO_PATH;
 
     // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+    if(err == EVFS_OK)
+      err = evfs_vfs_path_normalize(vfs, joined_path, &joined);
+
+    if(err == EVFS_OK) {
+      if(strlen(joined_path) < sizeof(fs_data->cur_dir))
+        strcpy(fs_data->cur_dir, joined_path);
+      else
+        err = EVFS_ERR_OVERFLOW;
+    }
 
     evfs_free(joined_path);
+    return err;
   }
 
   return EVFS_OK;
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index a0b78b1..e5f0108 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -458,6 +458,9 @@ static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
 
+    if(strlen(path) >= sizeof(fs_data->cur_dir))
+      return EVFS_ERR_OVERFLOW;
+
     strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
     fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
 
@@ -473,23 +476,26 @@ static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
 
     range_init(&joined, joined_path, joined_size);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    int err = evfs_vfs_path_join(vfs, &head, &tail, &joined);
 
     // We must normalize now because the fast index can't handle denormal paths
-    range_init(&joined, joined_path, joined_size);
-    evfs_vfs_path_normalize(vfs, joined_path, &joined);
+    if(err == EVFS_OK)
+      err = evfs_vfs_path_normalize(vfs, joined_path, &joined);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+    if(err == EVFS_OK && !evfs__vfs_existing_dir(vfs, joined_path))
+      err = EVFS_ERR_NO_PATH;
 
     // Overwrite old cur_dir
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_cat_str((AppendRange *)&head, joined_path);
+    if(err == EVFS_OK) {
+      if(strlen(joined_path) < sizeof(fs_data->cur_dir))
+        strcpy(fs_data->cur_dir, joined_path);
+      else
+        err = EVFS_ERR_OVERFLOW;
+    }
 
     evfs_free(joined_path);
+    return err;
   }
 
   return EVFS_OK;
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 30f7fa4..74a3564 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -426,6 +426,9 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
 
+    if(strlen(path) >= sizeof(shim_data->cur_dir))
+      return EVFS_ERR_OVERFLOW;
+
     strlcpy(shim_data->cur_dir, path, sizeof(shim_data->cur_dir));
     shim_data->cur_dir[sizeof(shim_data->cur_dir)-1] = '\0';
 
@@ -443,18 +446,25 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
 
     range_init(&joined, joined_path, joined_size);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    int err = evfs_vfs_path_join(vfs, &head, &tail, &joined);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+    if(err == EVFS_OK && !evfs__vfs_existing_dir(vfs, joined_path))
+      err = EVFS_ERR_NO_PATH;
 
     // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+    if(err == EVFS_OK)
+      err = evfs_vfs_path_normalize(vfs, joined_path, &joined);
+
+    if(err == EVFS_OK) {
+      if(strlen(joined_path) < sizeof(shim_data->cur_dir))
+        strcpy(shim_data->cur_dir, joined_path);
+      else
+        err = EVFS_ERR_OVERFLOW;
+    }
 
     evfs_free(joined_path);
+    return err;
   }
 
   return EVFS_OK;
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 99fcd5f..ec1c5e4 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -474,6 +474,9 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     // Confirm the path exists
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
+
+    if(strlen(path) >= sizeof(fs_data->cur_dir))
+      return EVFS_ERR_OVERFLOW;
   
     strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
     fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
@@ -490,18 +493,25 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
 
     range_init(&joined, joined_path, joined_size);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    int err = evfs_vfs_path_join(vfs, &head, &tail, &joined);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+    if(err == EVFS_OK && !evfs__vfs_existing_dir(vfs, joined_path))
+      err = EVFS_ERR_NO_PATH;
 
     // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+    if(err == EVFS_OK)
+      err = evfs_vfs_path_normalize(vfs, joined_path, &joined);
+
+    if(err == EVFS_OK) {
+      if(strlen(joined_path) < sizeof(fs_data->cur_dir))
+        strcpy(fs_data->cur_dir, joined_path);
+      else
+        err = EVFS_ERR_OVERFLOW;
+    }
 
     evfs_free(joined_path);
+    return err;
   }
 
   return EVFS_OK;
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 9d3fa03..88d66ed 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -492,6 +492,9 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     // Confirm the path exists
     if(!evfs__vfs_existing_dir(vfs, path))
       return EVFS_ERR_NO_PATH;
+
+    if(strlen(path) >= sizeof(fs_data->cur_dir))
+      return EVFS_ERR_OVERFLOW;
   
     strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
     fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
@@ -508,18 +511,25 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
 
     range_init(&joined, joined_path, joined_size);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
+    int err = evfs_vfs_path_join(vfs, &head, &tail, &joined);
 
     // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+    if(err == EVFS_OK && !evfs__vfs_existing_dir(vfs, joined_path))
+      err = EVFS_ERR_NO_PATH;
 
     // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+    if(err == EVFS_OK)
+      err = evfs_vfs_path_normalize(vfs, joined_path, &joined);
+
+    if(err == EVFS_OK) {
+      if(strlen(joined_path) < sizeof(fs_data->cur_dir))
+        strcpy(fs_data->cur_dir, joined_path);
+      else
+        err = EVFS_ERR_OVERFLOW;
+    }
 
     evfs_free(joined_path);
+    return err;
   }
 
   return EVFS_OK;
-- 
2.43.0


From 6ca0c18dd1d3232eb10b256faa0f868169c1a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 13/65] fix: closing a file or directory reports the failure of
 the host

---
 src/fatfs_fs.c    | 3 +--
 src/littlefs_fs.c | 3 +--
 src/stdio_fs.c    | 8 ++++----
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 84a8990..9af36e7 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -112,8 +112,7 @@ static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int fatfs__file_close(EvfsFile *fh) {
   FatfsFile *fil = (FatfsFile *)fh;
-  f_close(&fil->fil);
-  return EVFS_OK;
+  return translate_error(f_close(&fil->fil));
 }
 
 static ptrdiff_t fatfs__file_read(EvfsFile *fh, void *buf, size_t size) {
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 15c5300..9854a1e 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -174,8 +174,7 @@ static int littlefs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int littlefs__file_close(EvfsFile *fh) {
   LittlefsFile *fil = (LittlefsFile *)fh;
-  lfs_file_close(fil->lfs, &fil->fil);
-  return EVFS_OK;
+  return simple_error(lfs_file_close(fil->lfs, &fil->fil));
 }
 
 static ptrdiff_t littlefs__file_read(EvfsFile *fh, void *buf, size_t size) {
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index b9b8f56..61103ff 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -97,9 +97,9 @@ static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int stdio__file_close(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  fclose(fil->fp);
+  int status = fclose(fil->fp);
   fil->fp = NULL;
-  return EVFS_OK;
+  return simple_error(status);
 }
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
@@ -204,9 +204,9 @@ static EvfsFileMethods s_stdio_methods = {
 #ifdef EVFS_USE_STDIO_POSIX
 static int stdio__dir_close(EvfsDir *dh) {
   StdioDir *dir = (StdioDir *)dh;
-  closedir(dir->dp);
+  int status = closedir(dir->dp);
   dir->dp = NULL;
-  return EVFS_OK;
+  return simple_error(status);
 }
 
 
-- 
2.43.0


From 902b474dcb7475bec1d62d791ea8a0fc2fc75364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 14/65] fix: stdio reports a read or write that delivered
 nothing because of an error

---
 src/stdio_fs.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 61103ff..810b30e 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -104,7 +104,14 @@ static int stdio__file_close(EvfsFile *fh) {
 
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
-  return (ptrdiff_t)fread(buf, 1, size, fil->fp);
+  size_t read = fread(buf, 1, size, fil->fp);
+
+  if(read == 0 && size > 0 && ferror(fil->fp)) {
+    clearerr(fil->fp);
+    return EVFS_ERR_IO;
+  }
+
+  return (ptrdiff_t)read;
 }
 
 static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
@@ -113,8 +120,13 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  size_t wrote = fwrite(buf, 1, size, fil->fp);
+  if(wrote == 0 && size > 0) {
+    clearerr(fil->fp);
+    return EVFS_ERR_IO;
+  }
 
-  return (ptrdiff_t)fwrite(buf, 1, size, fil->fp);
+  return (ptrdiff_t)wrote;
 }
 
 static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
-- 
2.43.0


From 5607f22e7e2fcebbbd82e784c6b2819d3b5a8b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 15/65] fix: seeking from the end means the same on stdio and
 littlefs as elsewhere

---
 src/littlefs_fs.c | 2 +-
 src/stdio_fs.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 9854a1e..c0e2739 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -220,7 +220,7 @@ static int littlefs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir orig
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = LFS_SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = LFS_SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = LFS_SEEK_END; break;
+    case EVFS_SEEK_REV:  sorg = LFS_SEEK_END; offset = -offset; break;
     default:
       break;
   }
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 810b30e..1378d3a 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -176,7 +176,7 @@ static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   switch(origin) {
     case EVFS_SEEK_TO:   sorg = SEEK_SET; break;
     case EVFS_SEEK_REL:  sorg = SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = SEEK_END; break;
+    case EVFS_SEEK_REV:  sorg = SEEK_END; offset = -offset; break;
     default:
       break;
   }
-- 
2.43.0


From 01a81393be67ec9c2e07404b2e8b215378be887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 16/65] fix: stdio truncation flushes pending writes first

---
 src/stdio_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 1378d3a..ee273ef 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -136,6 +136,9 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // Pending writes must not land after the new end
+  if(fflush(fil->fp) != 0) return EVFS_ERR;
+
   return simple_error(ftruncate(fileno(fil->fp), size));
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
-- 
2.43.0


From 4590c2d11c759a89551062f9902aba7409f4ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 17/65] fix: FatFs truncation to the current size or beyond
 keeps the last byte and reports a lost position

---
 src/fatfs_fs.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 9af36e7..6b7697d 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -159,8 +159,8 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   // f_lseek() can grow files in write mode which we don't want to do here.
   evfs_off_t file_size = f_size(&fil->fil);
-  if(size >= file_size)
-    size = file_size-1;
+  if(size > file_size)
+    size = file_size;
 
   if(cur_pos > size)
     cur_pos = size;
@@ -170,7 +170,9 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
     status = f_truncate(&fil->fil);
 
   // Restore original position
-  f_lseek(&fil->fil, cur_pos);
+  FRESULT restore = f_lseek(&fil->fil, cur_pos);
+  if(status == FR_OK)
+    status = restore;
 
   return translate_error(status);
 #else
-- 
2.43.0


From 1848f7447aaa598167e36e3d0102e1e0a17cb27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 18/65] fix: clearing a rotate container ends when its
 directory cannot be read

---
 src/shim_rotate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 125a118..cd01e53 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -291,7 +291,7 @@ static int clear_container(Evfs *base_vfs, const char *path) {
   int status = evfs_vfs_open_dir(base_vfs, path, &dh);
   if(status != EVFS_OK) return status;
 
-  while(evfs_dir_read(dh, &info) != EVFS_DONE) {
+  while(evfs_dir_read(dh, &info) == EVFS_OK) {
     // Check for dir dots
     if(info.name[0] == '.') continue;
 
-- 
2.43.0


From ae6e64e0c80a8eb074310275b55f17083294a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 19/65] fix: reading a directory reports errors instead of the
 end of the directory

---
 src/fatfs_fs.c    |  3 +++
 src/littlefs_fs.c |  9 ++++++---
 src/romfs_fs.c    | 19 ++++++++++++-------
 src/stdio_fs.c    |  6 ++++++
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 6b7697d..8c3a65e 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -315,6 +315,9 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(status != FR_OK)
+    return translate_error(status);
+
   return info->name ? EVFS_OK : EVFS_DONE;
 }
 
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index c0e2739..f0233c6 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -272,8 +272,8 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   int status = lfs_dir_read(dir->fs_data->lfs, &dir->dir, &dir->info);
 
   // Skip over dir dots if configured
-  if(status >= 0 && fs_data->cfg_no_dir_dots) {
-    while(status >= 0 && (!strcmp(dir->info.name, ".") || !strcmp(dir->info.name, ".."))) {
+  if(status > 0 && fs_data->cfg_no_dir_dots) {
+    while(status > 0 && (!strcmp(dir->info.name, ".") || !strcmp(dir->info.name, ".."))) {
       status = lfs_dir_read(dir->fs_data->lfs, &dir->dir, &dir->info);
     }
   }
@@ -281,7 +281,7 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   memset(info, 0, sizeof(*info));
 
-  if(status >= 0) {
+  if(status > 0) {
     info->name = dir->info.name;
     info->size = dir->info.size;
 
@@ -291,6 +291,9 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(status < 0)
+    return translate_error(status);
+
   return status > 0 ? EVFS_OK : EVFS_DONE;
 }
 
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index e5f0108..fa0f1a8 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -286,18 +286,20 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   RomfsDir *dir = (RomfsDir *)dh;
   RomfsData *fs_data = (RomfsData *)dir->fs_data;
 
-  int status;
+  int status = EVFS_OK;
   evfs_off_t next_entry;
 
   // Advance to next directory
   if(dir->is_reset) { // Init iterator
-    romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
+    if(!romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file))
+      status = EVFS_ERR_IO;
     next_entry = dir->cur_file.spec_info;
     dir->is_reset = false;
 
-    if(fs_data->cfg_no_dir_dots) { // Skip over hard links
-      romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file); // Skip "."
-      romfs_read_file_header(&fs_data->romfs, FILE_OFFSET(&dir->cur_file), &dir->cur_file); // Skip ".."
+    if(status == EVFS_OK && fs_data->cfg_no_dir_dots) { // Skip over hard links
+      if(!romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) || // Skip "."
+         !romfs_read_file_header(&fs_data->romfs, FILE_OFFSET(&dir->cur_file), &dir->cur_file)) // Skip ".."
+        status = EVFS_ERR_IO;
       next_entry = FILE_OFFSET(&dir->cur_file);
     }
 
@@ -305,9 +307,12 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     next_entry = FILE_OFFSET(&dir->cur_file);
   }
 
-  if(next_entry > 0) {
+  if(status != EVFS_OK) { // Start of directory can't be read
+    dir->is_reset = true;
+
+  } else if(next_entry > 0) {
     dir->cur_file_offset = next_entry;
-    status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
+    status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_ERR_IO;
 
   } else { // Iteration complete
     status = EVFS_DONE;
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index ee273ef..f4b472c 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -231,6 +231,7 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   struct dirent *posix_entry;
 
+  errno = 0; // Only way to tell an error from the last entry
   posix_entry = readdir(dir->dp);
 
   // Skip over dir dots if configured
@@ -240,6 +241,8 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
     }
   }
 
+  int err = posix_entry ? 0 : errno;
+
   memset(info, 0, sizeof(*info));
 
   if(posix_entry) {
@@ -250,6 +253,9 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(err != 0)
+    return translate_error(err);
+
   return posix_entry ? EVFS_OK : EVFS_DONE;
 }
 
-- 
2.43.0


From 02815efc8c781e860108229b57507d5a799b5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 20/65] fix: a Romfs header that cannot be read is not used and
 an incomplete index is not installed

---
 src/romfs_common.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 6912317..b9979ae 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -43,6 +43,7 @@ bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
   if(checksum != 0)
     return false;
 
+  hdr->file_name[EVFS_ROMFS_MAX_NAME_LEN-1] = '\0';
   hdr->offset       = get_unaligned_be(&hdr->offset);
   hdr->spec_info    = get_unaligned_be(&hdr->spec_info);
   hdr->size         = get_unaligned_be(&hdr->size);
@@ -82,7 +83,9 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
 
   alignas(uintptr_t) evfs_off_t entry;
   if(dh_lookup(&fs->fast_index.hash_table, key, &entry)) {
-    romfs_read_file_header(fs, entry, hdr);
+    if(!romfs_read_file_header(fs, entry, hdr))
+      return EVFS_ERR_IO;
+
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
     hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
     status = EVFS_OK;
@@ -136,7 +139,8 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
 
       case FILE_TYPE_HARD_LINK:
         dir_pos = hdr->spec_info;  // Follow link dest
-        romfs_read_file_header(fs, dir_pos, hdr); // Reparse header (should never fail)
+        if(!romfs_read_file_header(fs, dir_pos, hdr)) // Reparse header
+          return EVFS_ERR_IO;
         dir_pos = hdr->spec_info; // First file in dir
         //DPRINT("FOLLOW LINK: %08X", dir_pos);
         break;
@@ -294,12 +298,14 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
   if(status == EVFS_OK) {
     // Get first file in directory
-    romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
+    status = romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
 
     // Skip hard link entries
-    romfs__get_next_file(fs, hdr, cur_file_offset);
+    if(status == EVFS_OK)
+      status = romfs__get_next_file(fs, hdr, cur_file_offset);
 
-    status = romfs__get_next_file(fs, hdr, cur_file_offset);
+    if(status == EVFS_OK)
+      status = romfs__get_next_file(fs, hdr, cur_file_offset);
   }
 
   return status;
@@ -309,13 +315,11 @@ static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
 
 
 // Recursively scan the filesystem and collect stats on all paths
-static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files) {
+static int scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files, size_t *total_path_len) {
   RomfsFileHead cur_file;
   evfs_off_t    cur_file_offset;
   int status;
 
-  size_t total_path_len = 0;
-
   status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, NULL);
   //DPRINT("OPEN DIR: %s %d", path, status);
 
@@ -327,10 +331,10 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
       if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
         // Build path to sub directory
         size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
-        total_path_len += new_prefix_len; // Entry for the directory
+        *total_path_len += new_prefix_len; // Entry for the directory
 
         char *sub_path = malloc(new_prefix_len+1);
-        if(MEM_CHECK(sub_path)) return 0;
+        if(MEM_CHECK(sub_path)) return EVFS_ERR_ALLOC;
 
         AppendRange sub_path_r;
         range_init(&sub_path_r, sub_path, new_prefix_len+1);
@@ -339,18 +343,19 @@ static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int
         range_cat_str(&sub_path_r, cur_file.file_name);
 
         //DPRINT("SUB PATH: '%s'  %08X", sub_path, cur_file_offset);
-        total_path_len += scan_dir_tree(fs, sub_path, new_prefix_len, total_files);
+        status = scan_dir_tree(fs, sub_path, new_prefix_len, total_files, total_path_len);
         free(sub_path);
+        if(status != EVFS_OK) return status;
 
       } else { // Normal file
-        total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
+        *total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
       }
 
       status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
     }
   } while(status == EVFS_OK);
 
-  return total_path_len;
+  return (status == EVFS_DONE) ? EVFS_OK : status;
 }
 
 
@@ -399,8 +404,9 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
 
         //DPRINT("SUB PATH: '%s'", sub_path);
 
-        index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
+        status = index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
         free(sub_path);
+        if(status != EVFS_OK) return status;
 
       } else { // Normal file
         // Prepare key
@@ -425,7 +431,7 @@ static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsI
     }
   } while(status == EVFS_OK);
 
-  return EVFS_OK;
+  return (status == EVFS_DONE) ? EVFS_OK : status;
 }
 
 
@@ -436,7 +442,9 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
   size_t total_path_len = 0;
   int total_files = 0;
 
-  total_path_len = scan_dir_tree(fs, "", 0, &total_files);
+  status = scan_dir_tree(fs, "", 0, &total_files, &total_path_len);
+  if(status != EVFS_OK) return status;
+
   // Add space for root entry
   total_files++;
   total_path_len += 1;
@@ -450,7 +458,8 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
     status = index_dir_tree(fs, "", 0, ht, &keys_r);
     //dump_array((uint8_t *)ht->keys, total_path_len);
 
-    fs->lookup_abs_path = romfs__fast_lookup_abs_path;
+    if(status == EVFS_OK) // An incomplete index would hide files
+      fs->lookup_abs_path = romfs__fast_lookup_abs_path;
   }
 
   return status;
-- 
2.43.0


From 2aea042da005e12134eda4c5757eadcec79da8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 21/65] fix: copying a file reports a failed close of the copy
 and an unknown source size

---
 src/evfs.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 0ede153..c155e7e 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -914,17 +914,19 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
     alloc_buf = true;
   }
 
-  size_t copy_size = evfs_file_size(fh);
+  evfs_off_t copy_size = evfs_file_size(fh);
+  if(copy_size < 0)
+    rval = copy_size;
 
   while(copy_size > 0) {
-    size_t read_size = MIN(copy_size, buf_size);
-    int read = evfs_file_read(fh, buf, read_size);
+    size_t read_size = MIN((size_t)copy_size, buf_size);
+    ptrdiff_t read = evfs_file_read(fh, buf, read_size);
     if(read <= 0) {
       rval = read < 0 ? read : EVFS_ERR_IO;
       break;
     }
 
-    int wrote = evfs_file_write(dest_fh, buf, read);
+    ptrdiff_t wrote = evfs_file_write(dest_fh, buf, read);
     if(wrote != read) {
       rval = wrote < 0 ? wrote : EVFS_ERR_IO;
       break;
@@ -937,8 +939,10 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
   if(alloc_buf)
     evfs_free(buf);
 
-cleanup:
-  evfs_file_close(dest_fh);
+cleanup: ;
+  int err = evfs_file_close(dest_fh);
+  if(rval == EVFS_OK) // Buffered data may fail to be written here
+    rval = err;
 
   return rval;
 }
-- 
2.43.0


From 417ade4a20055dc95ced1df5f2ebe8d50a1fb7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 22/65] fix: a read-only filesystem refuses to create a file
 with EVFS_NO_EXIST

---
 src/fatfs_fs.c    | 2 +-
 src/littlefs_fs.c | 2 +-
 src/stdio_fs.c    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 8c3a65e..fe8581f 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -346,7 +346,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_fatfs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   BYTE fs_flags = 0;
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index f0233c6..38d0eb8 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -323,7 +323,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_littlefs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   int lfs_flags = 0;
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index f4b472c..3a312af 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -303,7 +303,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_stdio_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   // Build mode string from flags
-- 
2.43.0


From 403e393088098cbcfa9b43a94b350b3b25557d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 23/65] fix: EVFS_NO_EXIST with EVFS_APPEND does not open an
 existing stdio file

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 3a312af..ebaeef0 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -323,7 +323,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   mode[mode_pos++] = 'b'; // Always use binary mode
 
 #if(__STDC_VERSION__ >= 201112L)
-  if(mode[0] == 'w' && (flags & EVFS_NO_EXIST))
+  if(flags & EVFS_NO_EXIST)
     mode[mode_pos++] = 'x';
 #else
 #  warning "C11 is needed to support EVFS_NO_EXIST for evfs_stdio driver"
-- 
2.43.0


From c01df38ea7cf274f9771cb4f5246745f2f8f4bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 24/65] fix: EVFS_NO_EXIST creates the file on littlefs

---
 src/littlefs_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 38d0eb8..52b49e2 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -331,7 +331,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   if(flags & EVFS_READ)        lfs_flags |= LFS_O_RDONLY; 
   if(flags & EVFS_WRITE)       lfs_flags |= LFS_O_WRONLY;
   if(flags & EVFS_OPEN_OR_NEW) lfs_flags |= LFS_O_CREAT;
-  if(flags & EVFS_NO_EXIST)    lfs_flags |= LFS_O_EXCL;
+  if(flags & EVFS_NO_EXIST)    lfs_flags |= (LFS_O_EXCL | LFS_O_CREAT);
   if(flags & EVFS_OVERWRITE)   lfs_flags |= (LFS_O_TRUNC | LFS_O_CREAT);
   if(flags & EVFS_APPEND)      lfs_flags |= LFS_O_APPEND;
 
-- 
2.43.0


From 9733d825b01aa92ec0747b3ae360efb329dd463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 25/65] fix: image block I/O fails when the image file cannot
 be positioned

disk_read/disk_write and littlefs_image_read/prog ignored a failing seek and
then transferred the block at whatever position the image file was left at.
---
 src/fatfs_image.c    | 8 ++++++--
 src/littlefs_image.c | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 7b0537e..3a01e20 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -164,7 +164,9 @@ DSTATUS disk_status(BYTE pdrv) {
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
+
   ptrdiff_t read = evfs_file_read(img->fh, buff, count * FF_MAX_SS);
 
   return read == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
@@ -173,7 +175,9 @@ DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
 DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
+
   ptrdiff_t wrote = evfs_file_write(img->fh, buff, count * FF_MAX_SS);
 
   return wrote == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index f3ef3f9..1d01cb5 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -132,7 +132,9 @@ int littlefs_image_read(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
+    return LFS_ERR_IO;
+
   ptrdiff_t read = evfs_file_read(img->fh, buffer, size);
 
   return read == size ? LFS_ERR_OK : LFS_ERR_IO;
@@ -143,7 +145,8 @@ int littlefs_image_prog(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
+    return LFS_ERR_IO;
 
   ptrdiff_t wrote = evfs_file_write(img->fh, buffer, size);
   return wrote == size ? LFS_ERR_OK : LFS_ERR_IO;
-- 
2.43.0


From fb73ea970a9e2ea9ae0fe3f7d9006b6b07e194a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 26/65] fix: FatFs image disk_ioctl reports a size error and
 sets the whole block size

GET_SECTOR_COUNT turned a failing evfs_file_size() into a sector count.
GET_BLOCK_SIZE takes a DWORD but only two of its bytes were written.
---
 src/fatfs_image.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 3a01e20..03e01f4 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -197,7 +197,10 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
   case GET_SECTOR_COUNT:  // Get media size (needed at FF_USE_MKFS == 1)
     {
       LBA_t *sectors = (LBA_t *)buff;
-      *sectors = evfs_file_size(img->fh) / FF_MAX_SS;
+      evfs_off_t img_size = evfs_file_size(img->fh);
+      if(img_size < 0)
+        return RES_ERROR;
+      *sectors = img_size / FF_MAX_SS;
       return RES_OK;
     }
     break;
@@ -212,8 +215,8 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
 
   case GET_BLOCK_SIZE:    // Get erase block size (needed at FF_USE_MKFS == 1)
     {
-      WORD *ss = (WORD *)buff;
-      *ss = FF_MAX_SS;
+      DWORD *bs = (DWORD *)buff;
+      *bs = FF_MAX_SS;
       return RES_OK;
     }
     break;
-- 
2.43.0


From f85d14cb6af809f84710956ad8704b18c1ff6909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 27/65] fix: making an image fails when the image file cannot
 be expanded

The seek to the end of the new image, a write of no bytes and a failing close
before the image is formatted were ignored.
---
 src/fatfs_image.c    | 15 ++++++++++-----
 src/littlefs_image.c | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 03e01f4..493350f 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -58,15 +58,20 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
 
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
-    evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
-
     char force_data[] = "\0";
-    status = evfs_file_write(img->fh, force_data, sizeof(char));
+    status = evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
+    if(status == EVFS_OK) {
+      status = evfs_file_write(img->fh, force_data, sizeof(char));
+      if(status == 0) // Out of space
+        status = EVFS_ERR_IO;
+    }
+
     if(status > 0) {
 #if FF_FS_READONLY == 0
       // Reopen for formatting
-      evfs_file_close(img->fh);
-      status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+      status = evfs_file_close(img->fh);
+      if(status == EVFS_OK)
+        status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
       if(status != EVFS_OK) {
         img->fh = NULL;
         return status;
diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 1d01cb5..ca23ea9 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -44,14 +44,19 @@ int littlefs_make_image(const char *img_path, struct lfs_config *cfg) {
 
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
-    evfs_file_seek(img->fh, cfg->block_size*cfg->block_count - 1, EVFS_SEEK_TO);
-
     char force_data[] = "\0";
-    status = evfs_file_write(img->fh, force_data, sizeof(char));
+    status = evfs_file_seek(img->fh, cfg->block_size*cfg->block_count - 1, EVFS_SEEK_TO);
+    if(status == EVFS_OK) {
+      status = evfs_file_write(img->fh, force_data, sizeof(char));
+      if(status == 0) // Out of space
+        status = EVFS_ERR_IO;
+    }
+
     if(status > 0) {
       // Reopen for formatting
-      evfs_file_close(img->fh);
-      status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+      status = evfs_file_close(img->fh);
+      if(status == EVFS_OK)
+        status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
       if(status != EVFS_OK) {
         img->fh = NULL;
         return status;
-- 
2.43.0


From a51c806b64f8f070fd56c2ce9383abf13a823e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 28/65] fix: reject FatFs volume numbers with no image data

get_image_data() indexed s_fatfs_image_data with any volume number.
---
 src/fatfs_image.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 493350f..b499dc0 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -29,7 +29,7 @@ Embedded Virtual Filesystem
 static FatfsImage s_fatfs_image_data[FF_VOLUMES] = {0};
 
 static inline FatfsImage *get_image_data(BYTE pdrv) {
-  return &s_fatfs_image_data[pdrv];
+  return pdrv < FF_VOLUMES ? &s_fatfs_image_data[pdrv] : NULL;
 }
 
 
@@ -111,6 +111,7 @@ Returns:
 int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   if(PTR_CHECK(img_path)) return EVFS_ERR_BAD_ARG;
   FatfsImage *img = get_image_data(pdrv);
+  if(PTR_CHECK(img)) return EVFS_ERR_BAD_ARG;
 
   // Open the image
   int status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
@@ -141,6 +142,7 @@ Args:
 */
 void fatfs_unmount_image(uint8_t pdrv) {
   FatfsImage *img = get_image_data(pdrv);
+  if(PTR_CHECK(img)) return;
 
   char drive_path[3];
   snprintf(drive_path, 2, "%hhu", pdrv);
@@ -168,6 +170,8 @@ DSTATUS disk_status(BYTE pdrv) {
 
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
+  if(!img)
+    return RES_PARERR;
 
   if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
     return RES_ERROR;
@@ -179,6 +183,8 @@ DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
 
 DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
+  if(!img)
+    return RES_PARERR;
 
   if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
     return RES_ERROR;
-- 
2.43.0


From cb49afd92248639005e25e631f5aaf87a4d79b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 29/65] fix: image offsets past 4 GiB do not wrap

Block numbers and block sizes are 32 bits wide, so their product wrapped before
it was used as the offset of a block in the image file.
---
 src/fatfs_image.c    | 4 ++--
 src/littlefs_image.c | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index b499dc0..f9115e1 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -173,7 +173,7 @@ DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   if(!img)
     return RES_PARERR;
 
-  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+  if(evfs_file_seek(img->fh, (evfs_off_t)sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
     return RES_ERROR;
 
   ptrdiff_t read = evfs_file_read(img->fh, buff, count * FF_MAX_SS);
@@ -186,7 +186,7 @@ DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   if(!img)
     return RES_PARERR;
 
-  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+  if(evfs_file_seek(img->fh, (evfs_off_t)sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
     return RES_ERROR;
 
   ptrdiff_t wrote = evfs_file_write(img->fh, buff, count * FF_MAX_SS);
diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index ca23ea9..0f1c65e 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -45,7 +45,7 @@ int littlefs_make_image(const char *img_path, struct lfs_config *cfg) {
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
     char force_data[] = "\0";
-    status = evfs_file_seek(img->fh, cfg->block_size*cfg->block_count - 1, EVFS_SEEK_TO);
+    status = evfs_file_seek(img->fh, (evfs_off_t)cfg->block_size * cfg->block_count - 1, EVFS_SEEK_TO);
     if(status == EVFS_OK) {
       status = evfs_file_write(img->fh, force_data, sizeof(char));
       if(status == 0) // Out of space
@@ -96,7 +96,7 @@ int littlefs_mount_image(const char *img_path, struct lfs_config *cfg, lfs_t *lf
     return status;
 
   // Confirm the image size matches the config
-  evfs_off_t expect_size = cfg->block_size * cfg->block_count;
+  evfs_off_t expect_size = (evfs_off_t)cfg->block_size * cfg->block_count;
   if(evfs_file_size(img->fh) != expect_size) {
     evfs_file_close(img->fh);
     return EVFS_ERR;
@@ -137,7 +137,7 @@ int littlefs_image_read(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  if(evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
+  if(evfs_file_seek(img->fh, (evfs_off_t)block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
     return LFS_ERR_IO;
 
   ptrdiff_t read = evfs_file_read(img->fh, buffer, size);
@@ -150,7 +150,7 @@ int littlefs_image_prog(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  if(evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
+  if(evfs_file_seek(img->fh, (evfs_off_t)block * cfg->block_size + off, EVFS_SEEK_TO) != EVFS_OK)
     return LFS_ERR_IO;
 
   ptrdiff_t wrote = evfs_file_write(img->fh, buffer, size);
-- 
2.43.0


From 081ac594dcc0b13d119cd42930582ad682d92ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 30/65] fix: a tar archive that cannot be read is not
 registered with a partial index

A read, seek or tell that failed while the archive was indexed was taken for the
end of the archive, so the members after it went missing without an error.
---
 include/evfs/tar_iter.h |  2 ++
 src/tar_fs.c            | 13 +++++++++++--
 src/tar_iter.c          | 19 +++++++++++++++----
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/evfs/tar_iter.h b/include/evfs/tar_iter.h
index dade3a0..3c8fa00 100644
--- a/include/evfs/tar_iter.h
+++ b/include/evfs/tar_iter.h
@@ -13,6 +13,8 @@ typedef struct TarFileIterator {
   evfs_off_t header_offset;  // Offset within tar file
   evfs_off_t file_size;      // Size of current archived file
 
+  int        status;         // EVFS_OK or the error that stopped the iteration
+
 } TarFileIterator;
 
 #ifdef __cplusplus
diff --git a/src/tar_fs.c b/src/tar_fs.c
index ec1c5e4..fba2568 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -195,7 +195,8 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 
 
 static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
-  if(!tar_iter_begin(tar_it)) return EVFS_ERR;
+  if(!tar_iter_begin(tar_it))
+    return tar_it->status != EVFS_OK ? tar_it->status : EVFS_ERR;
 
   size_t total_path_len = 0;
   int total_files = 0;
@@ -211,6 +212,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
   } while(tar_iter_next(tar_it));
 
+  if(tar_it->status != EVFS_OK) return tar_it->status;
 
   // Prepare the hash index
   int err = tarfs__index_hash_init(ht, total_files, total_path_len);
@@ -221,7 +223,10 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
-  tar_iter_begin(tar_it);
+  if(!tar_iter_begin(tar_it)) {
+    tarfs__index_hash_free(ht);
+    return tar_it->status != EVFS_OK ? tar_it->status : EVFS_ERR;
+  }
 
   do {
     // Only index plain files and directories
@@ -259,6 +264,10 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
   } while(tar_iter_next(tar_it));
 
+  if(tar_it->status != EVFS_OK) {
+    tarfs__index_hash_free(ht);
+    return tar_it->status;
+  }
 
   return EVFS_OK;
 }
diff --git a/src/tar_iter.c b/src/tar_iter.c
index b00db91..0793b0b 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -69,13 +69,22 @@ static bool tar__valid_header(TarHeader *header) {
 
 static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
   tar_it->header_offset = evfs_file_tell(tar_it->fd);
+  if(tar_it->header_offset < 0) {
+    tar_it->status = tar_it->header_offset;
+    goto fail;
+  }
 
-  if(evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE) != TAR_HEADER_SIZE)
+  ptrdiff_t read = evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE);
+  if(read != TAR_HEADER_SIZE) {
+    if(read < 0)  // A short read is the end of the archive
+      tar_it->status = read;
     goto fail;
+  }
 
   if(tar__valid_header(header)) {
     // Seek to start of next 512 byte TAR block for file data
-    if(evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL) != EVFS_OK)
+    tar_it->status = evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL);
+    if(tar_it->status != EVFS_OK)
       goto fail;
 
     // Extract fields
@@ -93,7 +102,8 @@ fail:
 
 
 bool tar_iter_seek(TarFileIterator *tar_it, evfs_off_t offset) {
-  if(evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->status = evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO);
+  if(tar_it->status != EVFS_OK)
     return false;
 
   return tar__get_header(tar_it, &tar_it->cur_header);
@@ -105,7 +115,8 @@ bool tar_iter_next(TarFileIterator *tar_it) {
   evfs_off_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   evfs_off_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  if(evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->status = evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO);
+  if(tar_it->status != EVFS_OK)
     return false;
 
   return tar__get_header(tar_it, &tar_it->cur_header);
-- 
2.43.0


From d5230b7964580f2bca03479d1c06a59f1158f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 31/65] fix: tar directory entries with an empty name

Removing the trailing slash of an empty name wrote before the name.
---
 src/tar_fs.c      | 3 ++-
 src/tar_rsrc_fs.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index fba2568..b3b3565 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -254,7 +254,8 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
       entry.file_size = -1;
 
       // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
+      if(key.length > 0)
+        ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry)) {
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 88d66ed..1d77760 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -259,7 +259,8 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
       entry.file_size = -1;
 
       // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
+      if(key.length > 0)
+        ((char *)key.data)[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry)) {
-- 
2.43.0


From 44e341dd7cb2eebc829d9f5d86cde3635cdf33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 32/65] fix: tar archives in memory are not read past the end
 of the resource

The first header was read and the data of a member was accepted without
comparing them with the length of the resource.
---
 src/tar_iter_rsrc.c | 30 ++++++++++++++++++------------
 src/tar_rsrc_fs.c   |  5 ++++-
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/tar_iter_rsrc.c b/src/tar_iter_rsrc.c
index b3120a7..826eed0 100644
--- a/src/tar_iter_rsrc.c
+++ b/src/tar_iter_rsrc.c
@@ -63,21 +63,30 @@ static bool tar__valid_header(TarHeader *header) {
 }
 
 
-static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
-  tar_it->header_offset = tar_it->read_pos - tar_it->resource;
+static bool tar__rsrc_get_header(TarRsrcIterator *tar_it, size_t offset) {
+  // The header block has to be inside the resource
+  if(tar_it->resource_len < TAR_BLOCK_SIZE || offset > tar_it->resource_len - TAR_BLOCK_SIZE)
+    goto fail;
 
-  tar_it->cur_header = (TarHeader *)tar_it->read_pos;
-  tar_it->read_pos += TAR_HEADER_SIZE;
+  tar_it->header_offset = offset;
+
+  tar_it->cur_header = (TarHeader *)(tar_it->resource + offset);
   if(tar__valid_header(tar_it->cur_header)) {
     // Seek to start of next 512 byte TAR block for file data
-    tar_it->read_pos += TAR_BLOCK_SIZE - TAR_HEADER_SIZE;
+    tar_it->read_pos = tar_it->resource + offset + TAR_BLOCK_SIZE;
 
     // Extract fields
     // Only supporting NUL terminated octal with '0' padding
     tar_it->file_size = strtol((const char *)tar_it->cur_header->size, NULL, 8);
+
+    // The file data has to be inside the resource
+    if(tar_it->file_size > tar_it->resource_len - offset - TAR_BLOCK_SIZE)
+      goto fail;
+
     return true;
   }
 
+fail:
   tar_it->cur_header = NULL;
   tar_it->header_offset = 0;
   tar_it->file_size = 0;
@@ -87,9 +96,10 @@ static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
 
 
 bool tar_rsrc_iter_seek(TarRsrcIterator *tar_it, evfs_off_t offset) {
-  tar_it->read_pos = tar_it->resource + offset;
+  if(offset < 0)
+    return false;
 
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, offset);
 }
 
 
@@ -98,11 +108,7 @@ bool tar_rsrc_iter_next(TarRsrcIterator *tar_it) {
   size_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   size_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  tar_it->read_pos = tar_it->resource + next_header;
-  if((size_t)(tar_it->read_pos - tar_it->resource) >= tar_it->resource_len)
-    return false;
-
-  return tar__rsrc_get_header(tar_it);
+  return tar__rsrc_get_header(tar_it, next_header);
 }
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 1d77760..7354582 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -231,7 +231,10 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
-  tar_rsrc_iter_begin(tar_it);
+  if(!tar_rsrc_iter_begin(tar_it)) {
+    tarfs__index_hash_free(ht);
+    return EVFS_ERR;
+  }
 
   do {
     // Only index plain files and directories
-- 
2.43.0


From 871f88bbcda266de0d7d086844c934296d50923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 33/65] fix: tar members with a negative size end the archive

They made tar_iter_next() step back to the header it had just read.
---
 src/tar_iter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tar_iter.c b/src/tar_iter.c
index 0793b0b..dd6a2b0 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -90,6 +90,9 @@ static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
     // Extract fields
     // Only supporting NUL terminated octal with '0' padding
     tar_it->file_size = strtol((const char *)header->size, NULL, 8);
+    if(tar_it->file_size < 0)
+      goto fail;
+
     return true;
   }
 
-- 
2.43.0


From c2e7ef167c987221d85b33f72f3857a14c10456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 34/65] fix: tar names and prefixes that fill their header
 field

These have no NUL, so the name ran on into the fields behind it.
---
 src/tar_fs.c      | 21 ++++++++++++++++-----
 src/tar_rsrc_fs.c | 21 ++++++++++++++++-----
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index b3b3565..77efdde 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -194,6 +194,13 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
+// Length of a header string. Strings that fill their field have no NUL
+#define TAR_STR_LEN(s)  strnlen((const char *)(s), sizeof(s))
+
+static StringRange tar_str_range(const uint8_t *str, size_t len) {
+  return (StringRange){(char *)str, (char *)str + len};
+}
+
 static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   if(!tar_iter_begin(tar_it))
     return tar_it->status != EVFS_OK ? tar_it->status : EVFS_ERR;
@@ -207,8 +214,8 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header.file_name) +
-                      strlen((char *)tar_it->cur_header.file_prefix) + 1;
+    total_path_len += TAR_STR_LEN(tar_it->cur_header.file_name) +
+                      TAR_STR_LEN(tar_it->cur_header.file_prefix) + 1;
 
   } while(tar_iter_next(tar_it));
 
@@ -238,10 +245,14 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
     key.data = keys_r.start;
     key.length = 0;
-    if(tar_it->cur_header.file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_prefix);
+    StringRange str_r;
+    if(tar_it->cur_header.file_prefix[0] != '\0') {
+      str_r = tar_str_range(tar_it->cur_header.file_prefix, TAR_STR_LEN(tar_it->cur_header.file_prefix));
+      key.length += range_cat_range(&keys_r, &str_r);
+    }
 // FIXME: Add path sep
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_name);
+    str_r = tar_str_range(tar_it->cur_header.file_name, TAR_STR_LEN(tar_it->cur_header.file_name));
+    key.length += range_cat_range(&keys_r, &str_r);
     range_cat_char(&keys_r,'\0');
 
     EvfsTarEntry entry;
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 7354582..8a44e9a 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -204,6 +204,13 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
+// Length of a header string. Strings that fill their field have no NUL
+#define TAR_STR_LEN(s)  strnlen((const char *)(s), sizeof(s))
+
+static StringRange tar_str_range(const uint8_t *str, size_t len) {
+  return (StringRange){(char *)str, (char *)str + len};
+}
+
 static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   if(!tar_rsrc_iter_begin(tar_it)) return EVFS_ERR;
 
@@ -216,8 +223,8 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header->file_name) +
-                      strlen((char *)tar_it->cur_header->file_prefix) + 1;
+    total_path_len += TAR_STR_LEN(tar_it->cur_header->file_name) +
+                      TAR_STR_LEN(tar_it->cur_header->file_prefix) + 1;
 
   } while(tar_rsrc_iter_next(tar_it));
 
@@ -246,10 +253,14 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 
     key.data = keys_r.start;
     key.length = 0;
-    if(tar_it->cur_header->file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_prefix);
+    StringRange str_r;
+    if(tar_it->cur_header->file_prefix[0] != '\0') {
+      str_r = tar_str_range(tar_it->cur_header->file_prefix, TAR_STR_LEN(tar_it->cur_header->file_prefix));
+      key.length += range_cat_range(&keys_r, &str_r);
+    }
 
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_name);
+    str_r = tar_str_range(tar_it->cur_header->file_name, TAR_STR_LEN(tar_it->cur_header->file_name));
+    key.length += range_cat_range(&keys_r, &str_r);
     range_cat_char(&keys_r,'\0');
 
     EvfsTarEntry entry;
-- 
2.43.0


From 63d66e78861d716863fd0175092ceed899854b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 35/65] fix: regular files opened through the rotate shim have
 no rotate state

rot_state was left uninitialized for them, and it decides whether the file is
treated as a container.
---
 src/shim_rotate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index cd01e53..411cb93 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1246,6 +1246,7 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   Evfs *base_vfs = shim_data->base_vfs;
 
   fil->shim_data = shim_data;
+  fil->rot_state = NULL;  // Only set for containers
 
   fil->base_file = (EvfsFile *)NEXT_OBJ(fil);  // We have two objects allocated together [RotateFile][<base VFS file size>]
 
-- 
2.43.0


From 3ddb0f0f7626e6098ad71b4e9388922f39d268ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 36/65] fix: the position after a full rotate container is not
 its first chunk

With max_chunks full chunks the end of the file mapped to the start chunk in its
own generation, so reads at the end never stopped and writes replaced the oldest
data without rotating.
---
 src/shim_rotate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 411cb93..3ad2656 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -373,7 +373,7 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
   ChunkPos pos;
   // Offset by start of logical file and wrap to upper bound
   pos.chunk_num.chunk = (raw_chunk + rs->start_chunk.chunk) % rs->cfg.max_chunks;
-  pos.chunk_num.gen = (pos.chunk_num.chunk < rs->start_chunk.chunk) ?
+  pos.chunk_num.gen = (raw_chunk + rs->start_chunk.chunk >= rs->cfg.max_chunks) ?
                               1 - rs->start_chunk.gen : rs->start_chunk.gen;
   pos.offset = offset;
   return pos;
-- 
2.43.0


From 5d3d0d96fdb93135fe119c841c10171c697b2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 37/65] fix: creating a rotate container fails when its
 geometry is not all written

A header written in part, whose size could pass for the geometry, and a failing
close were reported as success.
---
 src/shim_rotate.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 3ad2656..3c4d298 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -266,7 +266,7 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   status = evfs_file_write(dat_fh, &hdr, sizeof(hdr));
 
-  if(status > 0) {
+  if(status == sizeof(hdr)) {
     // Write geometry
     RotateGeometry geom = {
       .chunk_size = cfg->chunk_size,
@@ -274,12 +274,16 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
     };
 
     status = evfs_file_write(dat_fh, &geom, sizeof(geom));
+    status = status == sizeof(geom) ? EVFS_OK : EVFS_ERR;
 
+  } else {
+    status = EVFS_ERR;
   }
 
-  evfs_file_close(dat_fh);
+  if(evfs_file_close(dat_fh) != EVFS_OK)
+    status = EVFS_ERR;
 
-  return status == sizeof(RotateGeometry) ? EVFS_OK : EVFS_ERR;
+  return status;
 }
 
 
-- 
2.43.0


From 183bfdaee088f30f4e1cc6afcc34b6be125a165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 38/65] fix: writes to a rotate container follow the chunks
 that exist

A write that crossed the end of a chunk always appended a chunk, also when the
next one existed, and overwritten data was added to the size of the file. A
write to a chunk that failed was retried forever in new chunks, evicting the old
ones, and a failed seek was ignored so the data went to the wrong place.
---
 src/shim_rotate.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 3c4d298..65a6f1e 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -913,7 +913,9 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
         break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) return status;
+
       evfs_off_t remain_space = chunk_size - rpos.offset;
       size_t read_size = MIN((evfs_off_t)size, remain_space);
 
@@ -978,7 +980,8 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       }
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) return status;
 
       evfs_off_t free_space = rs->cfg.chunk_size - wpos.offset;
       if(ASSERT(free_space != 0, "No free space to write in chunk")) // This shouldn't happen
@@ -992,16 +995,18 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
         size -= wrote_chunk;
         incr_write_pos(&rs->base, wrote_chunk);
         wrote += wrote_chunk;
-        rs->base.total_size += wrote_chunk;
+
+        if(rs->base.flags & EVFS_APPEND)
+          rs->base.total_size += wrote_chunk;
+        else if(rs->base.file_pos > rs->base.total_size)
+          rs->base.total_size = rs->base.file_pos;
       }
 
-      // Check if we have more chunks to write
-      if(size > 0) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
+      // A new chunk is only started after this one has been filled
+      if(wrote_chunk < (ptrdiff_t)write_size) {
+        if(wrote_chunk < 0)
+          status = wrote_chunk;
+        break;
       }
     }
 
-- 
2.43.0


From 74fd8881cc38cbb08a421e654761d69fad3ef90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 39/65] fix: truncating a rotate container fails when its chunk
 is not truncated

---
 src/shim_rotate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 65a6f1e..f9c7c70 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1043,6 +1043,8 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(status != EVFS_OK) return EVFS_ERR_CORRUPTION;
 
     evfs_off_t chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+    if(chunk_size < 0) return EVFS_ERR_CORRUPTION;
+
     int delete_chunks;
 
     if(delete_bytes >= chunk_size)
@@ -1079,7 +1081,8 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
       if(ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
         return EVFS_ERR_CORRUPTION;
 
-      evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
+      status = evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
+      if(status != EVFS_OK) return status;
       rs->base.total_size -= delete_bytes;
     }
 
-- 
2.43.0


From cb565096dde75746f734313f2c3c14030e639821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 40/65] fix: a rotate container reports chunks that fail to
 close

What was written to them may be lost then.
---
 src/shim_rotate.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index f9c7c70..961a3e9 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -433,13 +433,17 @@ static inline ChunkId next_chunk(RotateState *rs) {
 }
 
 
-static inline void deactivate_chunk(MultipartState *ms) {
+static inline int deactivate_chunk(MultipartState *ms) {
+  int status = EVFS_OK;
+
   // Shutdown current active chunk
   if(ms->active_chunk_fh) {
-    evfs_file_close(ms->active_chunk_fh);
+    status = evfs_file_close(ms->active_chunk_fh);
     ms->active_chunk_fh = NULL;
     ms->active_chunk.chunk = -1;
   }
+
+  return status;
 }
 
 
@@ -450,7 +454,8 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
     return EVFS_OK;
 
   // Shutdown current active chunk
-  deactivate_chunk(ms);
+  int status = deactivate_chunk(ms);
+  if(status != EVFS_OK) return status;
 
   // Open new chunk
   EvfsFile *fh;
@@ -466,7 +471,7 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 #endif
   build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
-  int status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
+  status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
 
   UNLOCK(ms->buf);
 
@@ -857,16 +862,11 @@ static int rotate__file_close(EvfsFile *fh) {
     RotateState *rs = fil->rot_state;
 
     // Shutdown current active chunk
-    if(rs->base.active_chunk_fh) {
-      evfs_file_close(rs->base.active_chunk_fh);
-      rs->base.active_chunk_fh = NULL;
-      rs->base.active_chunk.chunk = -1;
-    }
+    status = deactivate_chunk(&rs->base);
 
     evfs_free(rs);
 
     fil->rot_state = NULL;
-    status = EVFS_OK;
   }
 
 
@@ -969,9 +969,10 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
         if(status != EVFS_OK) return status;
 
         // Set new active chunk
-        deactivate_chunk(&rs->base);
+        status = deactivate_chunk(&rs->base);
         rs->base.active_chunk = wpos.chunk_num;
         rs->base.active_chunk_fh = new_chunk;
+        if(status != EVFS_OK) return status;
       }
 
       if(wpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
-- 
2.43.0


From 94570e0ca200bfa2eef1e37f12a36e0a58a3882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 41/65] fix: a rotate container whose chunks cannot be listed
 is not opened as empty

Its chunks would be overwritten. Names that only look like a chunk are passed
over, their generation indexed past the end of gen_span.
---
 src/shim_rotate.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 961a3e9..cd9fb06 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -574,10 +574,14 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
 
   // Scan chunks
   EvfsDir *dh;
-  if(evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh) == EVFS_OK) {
+  status = evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh);
+  if(status == EVFS_OK) {
     EvfsInfo info;
-    while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
+    while((status = evfs_dir_find(dh, "c*.cnk", &info)) == EVFS_OK) {
       ChunkId id = parse_chunk_name(info.name);
+      if(id.chunk < 0 || (id.gen != 0 && id.gen != 1)) // Not one of our chunks
+        continue;
+
       bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
 
       // It's possible a 0-length chunk was leftover from a previous
@@ -601,8 +605,14 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
 
     }
     evfs_dir_close(dh);
+
+    if(status == EVFS_DONE) // Every entry has been scanned
+      status = EVFS_OK;
   }
 
+  if(status != EVFS_OK)
+    return status;
+
   if(gen_span[0].end >= 0 || gen_span[1].end >= 0) { // Found chunk files
     if(gen_span[0].end >= 0 && gen_span[1].end >= 0) { // Both generations present
       if(gen_span[0].start < gen_span[1].start) { // Gen 0 is newer
-- 
2.43.0


From fefb015219f47da4cf1427b7e3a536a51a8df7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 42/65] fix: rotation stops when the oldest chunk cannot be
 removed

It stayed behind with the number of the new end chunk, which made the container
unreadable when it was opened again.
---
 src/shim_rotate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index cd9fb06..6367da2 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -500,7 +500,9 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 
     // Remove the old start chunk on wrap around
     if(next.chunk == rs->start_chunk.chunk) {
-      evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      int err = evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      if(err != EVFS_OK && chunk_exists(base_vfs, &rs->base, rs->start_chunk, NULL))
+        return err;
 
       incr_chunk(rs, &rs->start_chunk);
 
-- 
2.43.0


From 7ddb043b9f4f5d3272ba14a41b9aefc7659be449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 43/65] fix: deleting a rotate container stops at a file it
 cannot remove

The result of joining the path of the file and of deleting it was ignored.
---
 src/shim_rotate.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 6367da2..bb0671c 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -295,19 +295,22 @@ static int clear_container(Evfs *base_vfs, const char *path) {
   int status = evfs_vfs_open_dir(base_vfs, path, &dh);
   if(status != EVFS_OK) return status;
 
-  while(evfs_dir_read(dh, &info) == EVFS_OK) {
+  while((status = evfs_dir_read(dh, &info)) == EVFS_OK) {
     // Check for dir dots
     if(info.name[0] == '.') continue;
 
     char joined[EVFS_MAX_PATH];
     StringRange joined_r = RANGE_FROM_ARRAY(joined);
-    evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
-    base_vfs->m_delete(base_vfs, joined);
+    status = evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, joined);
+    if(status != EVFS_OK)
+      break;
   }
 
   evfs_dir_close(dh);
 
-  return status;
+  return status == EVFS_DONE ? EVFS_OK : status;
 }
 
 
@@ -1328,8 +1331,9 @@ static int rotate__delete(Evfs *vfs, const char *path) {
     status = base_vfs->m_delete(base_vfs, path);
 
   } else { // This is a rotate container
-    clear_container(base_vfs, path);
-    status = base_vfs->m_delete(base_vfs, path);
+    status = clear_container(base_vfs, path);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, path);
   }
 
   return status;
-- 
2.43.0


From 99e5e0c7d4b7067fc166075b79913743a1eebf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 44/65] fix: rotate containers follow the flags they are opened
 with

Opening a missing file for reading created a container, EVFS_NO_EXIST opened an
existing one and EVFS_OVERWRITE kept its content.
---
 src/shim_rotate.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index bb0671c..28511f0 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1290,12 +1290,23 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   } else {
     // Open or create a container
     status = EVFS_OK;
-    if(!exists) // Create new container
-      status = init_rotate_container(base_vfs, path, &shim_data->cfg);
+    if(!exists) { // Create new container
+      if(flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND))
+        status = init_rotate_container(base_vfs, path, &shim_data->cfg);
+      else
+        status = EVFS_ERR_NO_FILE;
+    } else if(flags & EVFS_NO_EXIST) {
+      status = EVFS_ERR_EXISTS;
+    }
 
     if(status == EVFS_OK)
       status = open_rotate_container(vfs, path, fil, flags);
 
+    if(status == EVFS_OK && (flags & EVFS_OVERWRITE) && !(flags & EVFS_APPEND)) {
+      status = rotate__file_truncate(fh, 0);
+      if(status != EVFS_OK)
+        rotate__file_close(fh);
+    }
   }
 
   if(status == EVFS_OK) {
-- 
2.43.0


From cee72faf08f8084fbae4241e7027e7ca07cfebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 45/65] fix: reads of a rotate container see data that is not
 synced yet

The size of the active chunk came from m_stat(), which does not include data the
base filesystem still has buffered.
---
 src/shim_rotate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 28511f0..a7242ab 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -916,7 +916,7 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
 
       // If the chunk doesn't exist we are out of chunks to read
       evfs_off_t chunk_size;
-      if(!chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size))
+      if(!chunk_exists(base_vfs, &rs->base, rpos.chunk_num, NULL))
         break;
 
       if(rpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
@@ -924,6 +924,10 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
         if(status != EVFS_OK) return status;
       }
 
+      // Data may be buffered so the size from m_stat() isn't reliable
+      chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+      if(chunk_size < 0) return chunk_size;
+
       if(rpos.offset >= chunk_size) // Nothing left to read
         break;
 
-- 
2.43.0


From ad323f7edd433ab2891f04facf8a6db700c06e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 46/65] fix: rotate chunks are closed before they are removed

The data they still had buffered was missing from the size the container shrank
by, and some filesystems do not remove open files.
---
 src/shim_rotate.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index a7242ab..d63ffa2 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -388,9 +388,29 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
 
 
+static inline int deactivate_chunk(MultipartState *ms) {
+  int status = EVFS_OK;
+
+  // Shutdown current active chunk
+  if(ms->active_chunk_fh) {
+    status = evfs_file_close(ms->active_chunk_fh);
+    ms->active_chunk_fh = NULL;
+    ms->active_chunk.chunk = -1;
+  }
+
+  return status;
+}
+
+
 static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
   //DPRINT("EVICT: %d_%d", chunk_num.chunk, chunk_num.gen);
 
+  // An open chunk can't be removed on every filesystem and may have buffered data
+  if(ms->active_chunk.chunk == chunk_num.chunk) {
+    int err = deactivate_chunk(ms);
+    if(err != EVFS_OK) return err;
+  }
+
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
   char *joined = ms->buf->tmp_path;
@@ -436,20 +456,6 @@ static inline ChunkId next_chunk(RotateState *rs) {
 }
 
 
-static inline int deactivate_chunk(MultipartState *ms) {
-  int status = EVFS_OK;
-
-  // Shutdown current active chunk
-  if(ms->active_chunk_fh) {
-    status = evfs_file_close(ms->active_chunk_fh);
-    ms->active_chunk_fh = NULL;
-    ms->active_chunk.chunk = -1;
-  }
-
-  return status;
-}
-
-
 static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num) {
   //DPRINT("ROT Activate chunk: %d_%d", chunk_num.chunk, chunk_num.gen);
 
-- 
2.43.0


From 0bce0ee6960fc33d880753b1019d10413a7dc4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 47/65] fix: a rotate chunk that cannot be created is not part
 of the container

The next write skipped its number and left a gap in the chunk sequence.
---
 src/shim_rotate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index d63ffa2..72f05f7 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -521,8 +521,6 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
       else
         rs->base.file_pos = 0;
     }
-
-    rs->end_chunk = next;
   }
 
   //DPRINT("ROT: Append new chunk: %d_%d", rs->end_chunk.chunk, rs->end_chunk.gen);
@@ -545,6 +543,9 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 
   UNLOCK(rs->base.buf);
 
+  if(status == EVFS_OK)
+    rs->end_chunk = next;
+
   return status;
 }
 
-- 
2.43.0


From 4cf94568240ef30895ef320dcf191d3924bf390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 48/65] fix: a Romfs superblock that cannot be read is not
 taken as valid

---
 src/romfs_common.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index b9979ae..66d26fd 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -205,9 +205,14 @@ static int romfs__validate(Romfs *fs) {
         checksum += get_unaligned_be(&buf[i]);
       }
 
+      if(chunk_pos >= SUPERBLOCK_LEN || chunk_pos >= fs->total_size)
+        break;
+
       buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
       chunk_pos += CHUNK_LEN;
-      if(buf_len <= 0)
+      if(buf_len < 0)
+        return EVFS_ERR_IO;
+      if(buf_len == 0)
         break;
     }
 
@@ -215,6 +220,8 @@ static int romfs__validate(Romfs *fs) {
       // Read first chunk again
       chunk_pos = 0;
       buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
+      if(buf_len < ROMFS_MIN_HEADER_SIZE)
+        return EVFS_ERR_IO;
 
       char *vol_name = (char *)&buf[4];
       //DPRINT("VOLUME: '%s'", vol_name);
-- 
2.43.0


From fe7247846a66db6b3813284311dcba834c88c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 49/65] fix: a Romfs image whose size is unknown is not
 registered

---
 src/romfs_fs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index fa0f1a8..501696d 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -650,9 +650,12 @@ Returns:
 int evfs_register_romfs(const char *vfs_name, EvfsFile *image, bool default_vfs) {
   if(PTR_CHECK(vfs_name) || PTR_CHECK(image)) return EVFS_ERR_BAD_ARG;
 
+  evfs_off_t image_size = evfs_file_size(image);
+  if(image_size < 0) return image_size;
+
   RomfsConfig cfg = {
     .ctx        = image,
-    .total_size = evfs_file_size(image),
+    .total_size = image_size,
     .read_data  = romfs_read_image,
     .unmount    = romfs_unmount_image
   };
-- 
2.43.0


From 88ab3f48238ba72a8a88e224b3febff7c1f990c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 50/65] fix: FatFs images are mounted on their own volume

A logical drive path without a colon names the default drive.
---
 src/fatfs_image.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index f9115e1..09dec14 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -80,7 +80,7 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
       char drive_path[3];
       char buf[FF_MAX_SS*4];
 
-      snprintf(drive_path, 2, "%hhu", pdrv);
+      snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
 
       FRESULT err = f_mkfs(drive_path, NULL, buf, COUNT_OF(buf));
       status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -120,7 +120,7 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
 
 
   char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
 
   FRESULT err = f_mount(&img->fs, drive_path, 1);
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -145,7 +145,7 @@ void fatfs_unmount_image(uint8_t pdrv) {
   if(PTR_CHECK(img)) return;
 
   char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  snprintf(drive_path, sizeof(drive_path), "%hhu:", pdrv);
   f_unmount(drive_path);
 
   evfs_file_close(img->fh);
-- 
2.43.0


From d8a0877a0265d8cbd90661af78a0b138b363bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 51/65] fix: a new image that fails to close is reported

---
 src/fatfs_image.c    | 4 +++-
 src/littlefs_image.c | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 09dec14..a747388 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -89,7 +89,9 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
 #endif
     }
 
-    evfs_file_close(img->fh);
+    int close_status = evfs_file_close(img->fh);
+    if(status == EVFS_OK)
+      status = close_status;
   }
 
   img->fh = NULL;
diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 0f1c65e..74aa989 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -66,8 +66,9 @@ int littlefs_make_image(const char *img_path, struct lfs_config *cfg) {
       status = (lfs_format(&lfs, cfg) == LFS_ERR_OK) ? EVFS_OK : EVFS_ERR;
     }
 
-    evfs_file_close(img->fh);
-
+    int close_status = evfs_file_close(img->fh);
+    if(status == EVFS_OK)
+      status = close_status;
   }
 
   img->fh = NULL;
-- 
2.43.0


From 1c3aa854ff6b724ade02b8593e4ef66c373f585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 52/65] fix: sizes of 2 GiB and more are not turned negative

---
 src/romfs_fs.c    | 2 +-
 src/shim_rotate.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 501696d..57b2991 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -676,7 +676,7 @@ ptrdiff_t romfs_read_rsrc(Romfs *fs, evfs_off_t offset, void *buf, size_t size)
     return EVFS_ERR_OVERFLOW;
 
   evfs_off_t remain = fs->total_size - offset;
-  size = MIN((evfs_off_t)size, remain);
+  size = MIN(size, (size_t)remain);
 
   memcpy(buf, fs_base + offset, size);
 
diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 72f05f7..e4d7429 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -943,7 +943,7 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
       if(status != EVFS_OK) return status;
 
       evfs_off_t remain_space = chunk_size - rpos.offset;
-      size_t read_size = MIN((evfs_off_t)size, remain_space);
+      size_t read_size = MIN(size, (size_t)remain_space);
 
       ptrdiff_t read_chunk = evfs_file_read(rs->base.active_chunk_fh, cbuf, read_size);
       if(read_chunk > 0) {
@@ -1014,7 +1014,7 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       if(ASSERT(free_space != 0, "No free space to write in chunk")) // This shouldn't happen
         return EVFS_ERR_CORRUPTION;
 
-      size_t write_size = MIN((evfs_off_t)size, free_space);
+      size_t write_size = MIN(size, (size_t)free_space);
 
       ptrdiff_t wrote_chunk = evfs_file_write(rs->base.active_chunk_fh, cbuf, write_size);
       if(wrote_chunk > 0) {
-- 
2.43.0


From aef5911c34621ed2ac81c1b98cac95f142a513c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 53/65] fix: the size of a file that cannot be told is an error

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index ebaeef0..c067084 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -157,7 +157,7 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
   struct stat s;
 
   if(fstat(fileno(fil->fp), &s) != 0)
-    return 0;
+    return translate_error(errno);
 
   return s.st_size;
 #else
-- 
2.43.0


From f4ac6687eed50de5c84fd79d95e993d754fcf5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 54/65] fix: a failing size or position of a littlefs file is
 an error

---
 src/littlefs_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 52b49e2..757eb3c 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -210,7 +210,7 @@ static int littlefs__file_sync(EvfsFile *fh) {
 static evfs_off_t littlefs__file_size(EvfsFile *fh) {
   LittlefsFile *fil = (LittlefsFile *)fh;
   lfs_soff_t size = lfs_file_size(fil->lfs, &fil->fil);
-  return size >= 0 ? size : 0;
+  return size >= 0 ? size : translate_error(size);
 }
 
 static int littlefs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
@@ -232,7 +232,7 @@ static evfs_off_t littlefs__file_tell(EvfsFile *fh) {
   LittlefsFile *fil = (LittlefsFile *)fh;
 
   lfs_soff_t pos = lfs_file_tell(fil->lfs, &fil->fil);
-  return pos >= 0 ? pos : 0;
+  return pos >= 0 ? pos : translate_error(pos);
 }
 
 static bool littlefs__file_eof(EvfsFile *fh) {
-- 
2.43.0


From 8e1b9741f8081df89c5f3a849e26ea4f2723d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 55/65] fix: registering a filesystem looks for its name and
 adds it under one lock

Two threads registering the same name, or the first two filesystems, could both
find nothing and lose one of them.
---
 src/evfs.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index c155e7e..35a5e1f 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -243,6 +243,22 @@ static bool default__path_root_component(Evfs *vfs, const char *path, StringRang
 // ******************** VFS registration ********************
 
 
+// Search the list of VFSs. The registry lock must be held
+static Evfs *find_registered(const char *vfs_name) {
+  Evfs *rval = NULL;
+  Evfs *cur_vfs = s_vfs_list;
+
+  while(cur_vfs) {
+    if(!strcmp(cur_vfs->vfs_name, vfs_name))
+      rval = cur_vfs;
+
+    cur_vfs = cur_vfs->next;
+  }
+
+  return rval;
+}
+
+
 /*
 Search for a VFS by name
 
@@ -254,17 +270,9 @@ Returns:
 */
 Evfs *evfs_find_vfs(const char *vfs_name) {
   if(PTR_CHECK(vfs_name)) return NULL;
-  Evfs *rval = NULL;
 
   LOCK();
-  Evfs *cur_vfs = s_vfs_list;
-
-  while(cur_vfs) {
-    if(!strcmp(cur_vfs->vfs_name, vfs_name))
-      rval = cur_vfs;
-
-    cur_vfs = cur_vfs->next;
-  }
+  Evfs *rval = find_registered(vfs_name);
   UNLOCK();
 
   return rval;
@@ -337,11 +345,12 @@ int evfs_register(Evfs *vfs, bool make_default) {
   if(!s_evfs_initialized) THROW(EVFS_ERR_INIT);
 
 
+  LOCK();
+
   if(s_vfs_list) { // Prepend entry to existing list
     // Check if this VFS is already registered
-    Evfs *existing_vfs = evfs_find_vfs(vfs->vfs_name);
+    Evfs *existing_vfs = find_registered(vfs->vfs_name);
 
-    LOCK();
     if(!existing_vfs) { // Add a New VFS
       vfs->next = s_vfs_list;
       s_vfs_list = vfs;
@@ -372,7 +381,6 @@ int evfs_register(Evfs *vfs, bool make_default) {
     }
 
   } else { // First VFS entry
-    LOCK();
     s_default_vfs = vfs; // First entry must be the default
     s_vfs_list = vfs;
 
-- 
2.43.0


From 3efdb716f6fb65b8f10b6ec64cbc229d6ac82dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 56/65] fix: the default filesystem is read under the registry
 lock

---
 src/evfs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index 35a5e1f..9f9938e 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -286,8 +286,11 @@ static Evfs *evfs__get_vfs(const char *vfs_name) {
   if(vfs_name)
     vfs = evfs_find_vfs(vfs_name);
 
-  if(!vfs) // No name provided or not found in registered list
+  if(!vfs) { // No name provided or not found in registered list
+    LOCK();
     vfs = s_default_vfs;
+    UNLOCK();
+  }
 
   return vfs;
 }
-- 
2.43.0


From dd6e5be666074f1717b285d4aedc6338d924a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 57/65] fix: unregistering everything does not walk the
 registry without its lock

---
 src/evfs.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 9f9938e..bd4eca0 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -467,14 +467,16 @@ int evfs_unregister(Evfs *vfs) {
 Unregister all registered VFS objects
 */
 void evfs_unregister_all(void) {
-  Evfs *cur_vfs = s_vfs_list;
-  Evfs *next_vfs;
+  Evfs *cur_vfs;
 
-  while(cur_vfs) {
-    next_vfs = cur_vfs->next;
-    evfs_unregister(cur_vfs);
-    cur_vfs = next_vfs;
-  }
+  do {
+    LOCK();
+    cur_vfs = s_vfs_list;
+    UNLOCK();
+
+    if(cur_vfs)
+      evfs_unregister(cur_vfs);
+  } while(cur_vfs);
 }
 
 
-- 
2.43.0


From bc75f231d43d3450d6c0d0c5d331c9596d6937df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 58/65] fix: romfs positions and reads its image without the
 lock when looking up paths and listing directories

---
 src/romfs_fs.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 57b2991..96c54b2 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -32,7 +32,8 @@ Embedded Virtual Filesystem
 ///////////////////////////////////////////////////////////////////////////////////
 
 // Shared buffer needs lock if threading is enabled
-#if defined EVFS_USE_ROMFS_SHARED_BUFFER && defined EVFS_USE_THREADING
+// We also need a lock to read from the image in a threaded system
+#if defined EVFS_USE_THREADING
 #  define USE_ROMFS_LOCK
 #endif
 
@@ -289,6 +290,8 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   int status = EVFS_OK;
   evfs_off_t next_entry;
 
+  LOCK();
+
   // Advance to next directory
   if(dir->is_reset) { // Init iterator
     if(!romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file))
@@ -318,6 +321,8 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     status = EVFS_DONE;
   }
 
+  UNLOCK();
+
 
   memset(info, 0, sizeof(*info));
 
@@ -359,11 +364,19 @@ static inline int romfs__lookup_path(Evfs *vfs, RomfsData *fs_data, const char *
   int status;
 
   if(evfs_vfs_path_is_absolute(vfs, path)) {
+    LOCK();
     status = romfs_lookup_abs_path(&fs_data->romfs, path, hdr);
+    UNLOCK();
 
   } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
+    MAKE_ABS(path, abs_path); // Takes the lock when the buffer is shared
+#ifndef EVFS_USE_ROMFS_SHARED_BUFFER
+    LOCK();
+#endif
     status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
+#ifndef EVFS_USE_ROMFS_SHARED_BUFFER
+    UNLOCK();
+#endif
     FREE_ABS(abs_path);
   }
 
-- 
2.43.0


From c17a8846c934104e0d70a6339bfc854a78adfc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 59/65] fix: threads getting littlefs file information at the
 same time get that of one another

---
 src/littlefs_fs.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 757eb3c..155d9e2 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -41,7 +41,6 @@ Embedded Virtual Filesystem
 
 typedef struct LittlefsData_s {
   lfs_t    *lfs;
-  struct lfs_info info;
   char      cur_dir[LFS_NAME_MAX];
 #ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
@@ -356,20 +355,21 @@ static int littlefs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
 
   int status;
+  struct lfs_info lfs_info;
 
   if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    status = lfs_stat(fs_data->lfs, path, &fs_data->info);
+    status = lfs_stat(fs_data->lfs, path, &lfs_info);
   } else { // Convert relative path
     MAKE_ABS(path, abs_path);
-    status = lfs_stat(fs_data->lfs, abs_path, &fs_data->info);
+    status = lfs_stat(fs_data->lfs, abs_path, &lfs_info);
     FREE_ABS(abs_path);
   }
 
   memset(info, 0, sizeof(*info));
 
   if(status >= 0) {  
-    info->size = fs_data->info.size;
-    if(fs_data->info.type & LFS_TYPE_DIR)
+    info->size = lfs_info.size;
+    if(lfs_info.type & LFS_TYPE_DIR)
       info->type |= EVFS_FILE_DIR;
 
   }
-- 
2.43.0


From a012bbdf22fbb4edcbfe537eb6b21f5ca2e65055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 60/65] fix: stdio, littlefs and FatFs files report success for
 control commands they do not have

---
 src/fatfs_fs.c    | 4 +---
 src/littlefs_fs.c | 4 +---
 src/stdio_fs.c    | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index fe8581f..d527bd4 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -105,9 +105,7 @@ static bool fatfs__path_root_component(Evfs *vfs, const char *path, StringRange
 // ******************** File access methods ********************
 
 static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
-  //FatfsFile *fil = (FatfsFile *)fh;
-
-  return EVFS_OK;
+  return EVFS_ERR_NO_SUPPORT;
 }
 
 static int fatfs__file_close(EvfsFile *fh) {
diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 155d9e2..096fc0b 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -166,9 +166,7 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
 // ******************** File access methods ********************
 
 static int littlefs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
-  //LittlefsFile *fil = (LittlefsFile *)fh;
-  
-  return EVFS_OK;
+  return EVFS_ERR_NO_SUPPORT;
 }
 
 static int littlefs__file_close(EvfsFile *fh) {
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index c067084..d65db6c 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -90,9 +90,7 @@ static int translate_error(int err) {
 // ******************** File access methods ********************
 
 static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
-  //StdioFile *fil = (StdioFile *)fh;
-  
-  return EVFS_OK;
+  return EVFS_ERR_NO_SUPPORT;
 }
 
 static int stdio__file_close(EvfsFile *fh) {
-- 
2.43.0


From 6c3288827aa613ed675ce0d2ee788ffbfb24d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 61/65] fix: path components that only begin with two dots are
 taken for the parent directory

---
 src/evfs_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 05aafd1..0efe193 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -303,7 +303,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
     // Skip '.' segments
     if(!(range_size(&token) == 1 && *token.start == '.')) {
-      if(!strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
         // Search back through mask for most recent kept segment and remove it
         // We preserve ".." segments if no preceding non-".." segment is found
         found_prev_dir = false;
@@ -425,7 +425,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
     // Add tokens except for '.'
     if(!(range_size(&token) == 1 && *token.start == '.')) {
       // Pop stack if token is '..' unless the stack is empty
-      if(!strncmp(token.start, "..", 2)) {
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) {
         if(stack_head > preserved_parent_ref+1) {
           stack_head--;
         } else if(!is_absolute) { // Relative paths need leading ".." preserved
-- 
2.43.0


From 4f62b725b2404722f4776b35d8af9cc3dafe1f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 62/65] fix: joining paths into a buffer without room for the
 NUL reports success with the last part missing

---
 src/evfs_path.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 0efe193..73335b1 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -206,7 +206,10 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
   if(ASSERT(joined_len <= (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
 
 
-  range_cat_range(&joined_a, head);
+  bool truncated = false; // The size needed above doesn't include a NUL
+
+  if(range_cat_range(&joined_a, head) < 0)
+    truncated = true;
 
   // Join with the separator
   // If head is empty no separator
@@ -214,14 +217,21 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
   StringRange root;
   vfs->m_path_root_component(vfs, head->start, &root);
 
-  if(head_len > 0 && head_len != (size_t)range_size(&root))
-    range_cat_char(&joined_a, EVFS_DIR_SEP);
+  if(head_len > 0 && head_len != (size_t)range_size(&root)) {
+    if(range_cat_char(&joined_a, EVFS_DIR_SEP) < 0)
+      truncated = true;
+  }
 
-  if(tail_len > 0)
-    range_cat_range(&joined_a, tail);
+  if(tail_len > 0) {
+    if(range_cat_range(&joined_a, tail) < 0)
+      truncated = true;
+  }
 
   range_terminate(&joined_a);
 
+  if(truncated)
+    THROW(EVFS_ERR_OVERFLOW);
+
   return EVFS_OK;
 }
 
-- 
2.43.0


From 7d0247f6365f6cb7c217b5edb988acfa06c7d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 63/65] fix: a current directory that does not fit in the
 buffer is delivered as an empty one

---
 src/littlefs_fs.c | 4 +++-
 src/romfs_fs.c    | 4 +++-
 src/shim_jail.c   | 4 +++-
 src/tar_fs.c      | 4 +++-
 src/tar_rsrc_fs.c | 4 +++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 096fc0b..3fa31d7 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -472,7 +472,9 @@ static int littlefs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    THROW(EVFS_ERR_OVERFLOW);
+
   range_terminate(&r);
   return EVFS_OK;
 }
diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 96c54b2..7c16e4d 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -461,7 +461,9 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    THROW(EVFS_ERR_OVERFLOW);
+
   range_terminate(&r);
   return EVFS_OK;
 }
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 74a3564..04c9ec5 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -411,7 +411,9 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   JailData *fs_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
   
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    THROW(EVFS_ERR_OVERFLOW);
+
   range_terminate(&r);
   return EVFS_OK;
 }
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 77efdde..9150d8c 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -481,7 +481,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    THROW(EVFS_ERR_OVERFLOW);
+
   range_terminate(&r);
   return EVFS_OK;
 }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 8a44e9a..4716617 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -493,7 +493,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    THROW(EVFS_ERR_OVERFLOW);
+
   range_terminate(&r);
   return EVFS_OK;
 }
-- 
2.43.0


From 06c3d720caded70d41c1a4aa4b2782eca8ea49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 64/65] fix: a jail whose root fills the path buffer passes
 paths on without it

---
 src/shim_jail.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 04c9ec5..174ac4f 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -87,8 +87,8 @@ static int unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   AppendRange real_r = *(AppendRange *)real_path;
 
   // Start with jail root
-  range_cat_str(&real_r, shim_data->jail_root);
-  range_cat_char(&real_r, EVFS_DIR_SEP);
+  if(range_cat_str(&real_r, shim_data->jail_root) < 0 || range_cat_char(&real_r, EVFS_DIR_SEP) < 0)
+    THROW(EVFS_ERR_OVERFLOW);
 
   // Convert path to absolute within the jail subtree
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
-- 
2.43.0


From 96e5afb59a350269baade8104ecf81308f0c0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 65/65] fix: making a path absolute drops a root component that
 does not fit

---
 src/evfs_path.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 73335b1..8fbc409 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -566,8 +566,10 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
   size_t root_len = range_size(&root);
   path_start += root_len;
 
-  if(range_size(&root) > 0) // Add any relative root prefix from path now
-    range_cat_range((AppendRange *)&joined_r, &root);
+  if(range_size(&root) > 0) { // Add any relative root prefix from path now
+    if(range_cat_range((AppendRange *)&joined_r, &root) < 0)
+      THROW(EVFS_ERR_OVERFLOW);
+  }
 
   // Get current directory
   rval = vfs->m_get_cur_dir(vfs, &joined_r);
-- 
2.43.0

