From 77a61b4b7746dc131fedbb98768194ef29486bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 01/22] fix: reject configuration whose authentication tag is
 not the full 16 bytes

---
 sources/params_io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/params_io.cpp b/sources/params_io.cpp
index 8d121e3..9882c57 100644
--- a/sources/params_io.cpp
+++ b/sources/params_io.cpp
@@ -201,6 +201,10 @@ DecryptedSecurefsParams decrypt(const LegacySecurefsJsonParams& legacy,
             auto mac = parse_hex(legacy.encrypted_key().mac());
             auto ciphertext = parse_hex(legacy.encrypted_key().ciphertext());
             auto header = get_version_header(legacy.version());
+            if (mac.size() != kParamMacSize)
+            {
+                return false;
+            }
 
             CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
             dec.SetKeyWithIV(wrapping_key.data(), wrapping_key.size(), iv.data(), iv.size());
@@ -280,6 +284,11 @@ DecryptedSecurefsParams decrypt(const EncryptedSecurefsParams& encparams,
                                 absl::Span<const byte> password,
                                 /* nullable */ StreamBase* key_stream)
 {
+    // A truncated (or absent) tag would be accepted by the verification below.
+    if (encparams.mac().size() != kParamMacSize)
+    {
+        throw PasswordOrKeyfileIncorrectException();
+    }
     auto wrapping_key = compute_password_derived_key(encparams, password, key_stream);
     CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
     dec.SetKeyWithIV(wrapping_key.data(),
-- 
2.43.0


From 47ce1c9fb539ca0c207b2cbe37a8bfbe36bd1868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 02/22] fix: reject symlink components shorter than the SIV in
 legacy_decrypt_path

---
 sources/lite_format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 12ba4f0..52eeb5d 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -302,6 +302,8 @@ namespace
                         base32_decode(slice, slice_size, decoded_part);
                         if (decoded_part.size() >= sizeof(string_buffer))
                             throwVFSException(ENAMETOOLONG);
+                        if (decoded_part.size() < kSIVSize)
+                            throw InvalidFilenameException(std::string(path));
 
                         bool success = decryptor.decrypt_and_verify(&decoded_part[kSIVSize],
                                                                     decoded_part.size() - kSIVSize,
-- 
2.43.0


From c7aca0a608d2ebdca7cf88a688896aa7b1b761cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 03/22] fix: mark the HMAC stream dirty before modifying it, so
 a half-done write is re-authenticated

---
 sources/streams.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/streams.cpp b/sources/streams.cpp
index 91c1263..6a1b12f 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -143,14 +143,15 @@ namespace internal
 
         void write(const void* input, offset_type off, length_type len) override
         {
-            m_stream->write(input, off + hmac_length, len);
+            // Set first, because a write that fails half way also changes the content.
             is_dirty = true;
+            m_stream->write(input, off + hmac_length, len);
         }
 
         void resize(length_type len) override
         {
-            m_stream->resize(len + hmac_length);
             is_dirty = true;
+            m_stream->resize(len + hmac_length);
         }
 
         bool is_sparse() const noexcept override { return m_stream->is_sparse(); }
-- 
2.43.0


From 3a9aea4a48ae2380781040e9201bbb1cc3d2e4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 04/22] fix: flush the new configuration to disk before it
 replaces the old one

chpass and upgrade write the re-encrypted configuration to a temporary file
and rename it over the original. Without an fsync in between, a crash shortly
after can leave the renamed file empty or truncated, and with the old
configuration gone nothing in the repository can be decrypted any more.
---
 sources/commands.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 2bf7b62..3ec2670 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -495,6 +495,7 @@ public:
             OSService::get_default().remove_file_nothrow(tmp_path);
         });
         stream->write(encrypted_data.data(), 0, encrypted_data.size());
+        stream->fsync();
         stream.reset();
         OSService::get_default().rename(tmp_path, original_path);
         return 0;
@@ -1188,6 +1189,7 @@ public:
             OSService::get_default().remove_file_nothrow(tmp_path);
         });
         stream->write(encrypted_data.data(), 0, encrypted_data.size());
+        stream->fsync();
         stream.reset();
         OSService::get_default().rename(tmp_path, real_config_path);
         return 0;
-- 
2.43.0


From 7fb827947e762e1d2f2dcbc6e098e436d06683d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 05/22] fix: a file that cannot be flushed at unmount must not
 terminate the process before the others are

---
 sources/file_table_v2.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index e71e9be..d4a6e83 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -198,19 +198,32 @@ void FileTable::close_internal(const id_type id)
 FileTable::~FileTable()
 {
     VERBOSE_LOG("Flushing all opened and cached file descriptors, please wait...");
-    root_->flush();
+    // A failure must not leave the destructor, nor prevent the other files from being flushed.
+    auto flush_nothrow = [](FileBase& fb)
+    {
+        try
+        {
+            LockGuard<FileBase> inner_lg(fb);
+            fb.flush();
+        }
+        catch (const std::exception& e)
+        {
+            ERROR_LOG("Failed to flush file %s: %s",
+                      hexify(fb.get_id().data(), fb.get_id().size()),
+                      e.what());
+        }
+    };
+    flush_nothrow(*root_);
     for (auto&& s : shards)
     {
         LockGuard<Mutex> lg(s.mu);
         for (auto&& pair : s.live_map)
         {
-            LockGuard<FileBase> inner_lg(*pair.second);
-            pair.second->flush();
+            flush_nothrow(*pair.second);
         }
         for (auto&& p : s.cache)
         {
-            LockGuard<FileBase> inner_lg(*p);
-            p->flush();
+            flush_nothrow(*p);
         }
     }
 }
-- 
2.43.0


From 9b77c274c6ca5b7695bdaa39ee9d51bd0c1f5421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 06/22] fix: RegularFile::size() is not noexcept, since
 querying the stream can fail

---
 sources/files.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/files.h b/sources/files.h
index ce44fe5..78f9760 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -389,7 +389,7 @@ public:
         return this->m_stream->write(input, off, len);
     }
 
-    length_type size() const noexcept ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
+    length_type size() const ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
     {
         return m_stream->size();
     }
-- 
2.43.0


From 1b2b471865efd2c09752ca3a6423fa78e9721655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 07/22] fix: do not throw from WriteCachedStream's destructor

---
 sources/streams.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sources/streams.h b/sources/streams.h
index af20b37..3f0b0a5 100644
--- a/sources/streams.h
+++ b/sources/streams.h
@@ -193,7 +193,17 @@ public:
         : delegate_(std::move(delegate)), buffer_(cache_size, 0)
     {
     }
-    ~WriteCachedStream() override { flush_cache(); }
+    ~WriteCachedStream() override
+    {
+        try
+        {
+            flush_cache();
+        }
+        catch (...)
+        {
+            // Destructors must not throw. Callers interested in errors should call flush() first.
+        }
+    }
     length_type read(void* output, offset_type offset, length_type length) override;
     void write(const void* input, offset_type offset, length_type length) override;
     length_type size() const override
-- 
2.43.0


From 1da768ff716ae7de20c649ebf0a2ce06698927df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 08/22] fix: a pending wake-up of the timer must survive a
 later setTimePoint

---
 sources/resettable_timer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sources/resettable_timer.cpp b/sources/resettable_timer.cpp
index 6ca9c91..48cd75c 100644
--- a/sources/resettable_timer.cpp
+++ b/sources/resettable_timer.cpp
@@ -23,8 +23,11 @@ void ResettableTimer::setTimePoint(absl::Time trigger_time)
 {
     absl::MutexLock ml(&mu_);
     // If the new time point is in the future, then we can just let the work thread wake up
-    // naturally.
-    should_wake_up_ = trigger_time < this->trigger_time_;
+    // naturally. A wake-up still pending must not be lost.
+    if (trigger_time < this->trigger_time_)
+    {
+        should_wake_up_ = true;
+    }
     this->trigger_time_ = trigger_time;
 
     if (!work_thread_.joinable())
-- 
2.43.0


From a5c06fb9756eadbfc1ff4f75f6a1c97556620c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 09/22] fix: release the table's mutex when its transaction
 cannot be started

---
 sources/lite_long_name_lookup_table.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sources/lite_long_name_lookup_table.h b/sources/lite_long_name_lookup_table.h
index 22be010..73ef92e 100644
--- a/sources/lite_long_name_lookup_table.h
+++ b/sources/lite_long_name_lookup_table.h
@@ -20,7 +20,15 @@ namespace internal
         void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION(*this) ABSL_NO_THREAD_SAFETY_ANALYSIS
         {
             db_.mutex().Lock();
-            begin();
+            try
+            {
+                begin();
+            }
+            catch (...)
+            {
+                db_.mutex().Unlock();
+                throw;
+            }
         }
 
         void unlock() ABSL_UNLOCK_FUNCTION(*this) ABSL_NO_THREAD_SAFETY_ANALYSIS
-- 
2.43.0


From 809eea7b9488651c6abeaad912b6ae328c897896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 10/22] fix: rmdir of a non-empty directory must not remove its
 entry

---
 sources/full_format.cpp | 21 ++++++++++++++++++---
 sources/full_format.h   |  4 ++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 9b06aa4..5163d5a 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -229,6 +229,14 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
     id_type id;
     int type;
 
+    {
+        FileLockGuard lg(*dirholder);
+        if (!dirholder->cast_as<Directory>()->get_entry(last_component, id, type))
+        {
+            return -ENOENT;
+        }
+    }
+    ensure_empty_directory(id, type);
     {
         FileLockGuard lg(*dirholder);
         if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
@@ -239,9 +247,6 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
 
     auto fp = ft_->open_as(id, type);
     FileLockGuard lg(*fp);
-    fp->cast_as<Directory>()->iterate_over_entries(
-        [](const std::string& name, const id_type& id, int type) -> bool
-        { throwVFSException(ENOTEMPTY); });
     fp->unlink();
     return 0;
 };
@@ -507,6 +512,16 @@ int FuseHighLevelOps::vgetpath(
     return copy_and_return(result);
 };
 
+void FuseHighLevelOps::ensure_empty_directory(const id_type& id, int type)
+{
+    auto fp = ft_->open_as(id, type);
+    FileLockGuard lg(*fp);
+    if (!fp->cast_as<Directory>()->empty())
+    {
+        throwVFSException(ENOTEMPTY);
+    }
+}
+
 std::optional<FilePtrHolder>
 FuseHighLevelOps::generic_open(id_type parent_id,
                                FilePtrHolder parent,
diff --git a/sources/full_format.h b/sources/full_format.h
index 4a67361..733a564 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -168,6 +168,10 @@ private:
                                               int recursion_depth = 0);
 
     OpenBaseResult open_base(absl::string_view path);
+
+    // Fails with `ENOTEMPTY` (or `ENOTDIR`) unless the object is a directory without any entries.
+    void ensure_empty_directory(const id_type& id, int type);
+
     FilePtrHolder create(absl::string_view path, unsigned mode, int type, int uid, int gid);
     std::optional<FilePtrHolder> open_all(absl::string_view path,
                                           bool resolve_last_symlink = false);
-- 
2.43.0


From 83e71a44ad8b46050b794b8d27e36f9b31928396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 11/22] fix: rename must not replace a non-empty directory

---
 sources/full_format.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 5163d5a..4989f10 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -337,6 +337,21 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     int from_type, to_type;
     bool has_to_item = false;
 
+    {
+        DoubleFileLockGuard lg(*base_from, *base_to);
+
+        if (!base_from->cast_as<Directory>()->get_entry(last_from, from_id, from_type))
+        {
+            return -ENOENT;
+        }
+        has_to_item
+            = base_to->cast_as<Directory>()->get_entry(last_to, to_id, to_type).has_value();
+    }
+    if (has_to_item && !(from_id == to_id) && to_type == Directory::class_type())
+    {
+        ensure_empty_directory(to_id, to_type);
+    }
+
     {
         DoubleFileLockGuard lg(*base_from, *base_to);
 
-- 
2.43.0


From 5b7ed3ceb2b6bc1e1af50b39199cb0c1d8b10361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 12/22] fix: fsync must write out the buffered metadata first

---
 sources/files.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/files.h b/sources/files.h
index 78f9760..6be62b9 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -336,6 +336,8 @@ public:
 
     void fsync() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
     {
+        // Buffered metadata, without which the data cannot be verified, must be written out first.
+        flush();
         m_data_stream->fsync();
         m_meta_stream->fsync();
     }
-- 
2.43.0


From 7e20d3f151774500d227b77767194142ce6a8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 13/22] fix: utimens stored an uninitialised change time

---
 sources/files.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/files.cpp b/sources/files.cpp
index ff60aa2..211070a 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -337,6 +337,7 @@ void FileBase::utimens(const fuse_timespec* ts)
     if (m_store_time)
     {
         fuse_timespec current_time;
+        OSService::get_current_time(current_time);
 
         if (ts)
         {
-- 
2.43.0


From 875049d150095c0de49525ae030d260a25af9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 14/22] fix: a name that cannot be decrypted must not be listed
 as the previous name

---
 sources/lite_format.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 52eeb5d..502b2b3 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -673,8 +673,9 @@ namespace
                     continue;
                 try
                 {
+                    bool decodable = true;
                     std::visit(Overload{[&](std::string&& decoded) { decoded.swap(*name); },
-                                        [](const InvalidNameTag&) {},
+                                        [&](const InvalidNameTag&) { decodable = false; },
                                         [&](const LongNameTag&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
                                         {
                                             auto&& table = lazy_get_table();
@@ -688,6 +689,10 @@ namespace
                                             std::get<std::string>(decoded).swap(*name);
                                         }},
                                name_trans_.decrypt_path_component(under_name));
+                    if (!decodable)
+                    {
+                        continue;
+                    }
                 }
                 catch (const std::exception& e)
                 {
-- 
2.43.0


From 2d11647a6b9b098a4cfee45ea50b71204031f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 15/22] fix: rmdir of a non-empty directory must keep its long
 name table

---
 sources/lite_format.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 502b2b3..86d1d7d 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -969,6 +969,17 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
                                LongNameComponentAction::kDelete,
                                [&](std::string&& enc_path)
                                {
+                                   // The table must outlive a refused removal.
+                                   auto traverser = root_->create_traverser(enc_path);
+                                   std::string name;
+                                   while (traverser->next(&name, nullptr))
+                                   {
+                                       if (name != "." && name != ".."
+                                           && name != kLongNameTableFileName)
+                                       {
+                                           throwVFSException(ENOTEMPTY);
+                                       }
+                                   }
                                    root_->remove_file_nothrow(
                                        absl::StrCat(enc_path, "/", kLongNameTableFileName));
                                    root_->remove_directory(enc_path);
-- 
2.43.0


From 55821676c6003eef88d564f015fbba49ecf26127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 16/22] fix: a failed rename must not roll back the long names
 already migrated

---
 sources/lite_format.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 86d1d7d..92bbee9 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1314,14 +1314,20 @@ void change_long_name_suffix(const std::string& data_dir,
             = root.norm_path_narrowed(absl::StrCat(dir, "/", kLongNameTableFileName));
 
         LongNameLookupTable table(full_table_file_name, false);
-        LockGuard<LongNameLookupTable> lg(table);
-        auto hashes = table.list_hashes();
+        std::vector<std::string> hashes;
+        {
+            LockGuard<LongNameLookupTable> lg(table);
+            hashes = table.list_hashes();
+        }
         for (const auto& hash : hashes)
         {
             if (!absl::EndsWith(hash, old_suffix))
             {
                 continue;
             }
+            // One transaction for each file, so that a failure does not roll back the mappings of the
+            // files that have already been renamed.
+            LockGuard<LongNameLookupTable> lg(table);
             auto new_hash = absl::StrCat(hash.substr(0, hash.size() - old_suffix.size()),
                                          new_long_name_suffix);
             auto old_value = table.lookup(hash);
-- 
2.43.0


From 7fde8e261dbfea5d9dad9d34d496004949b53667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 17/22] fix: SimpleDirectory started with an undefined dirty
 mark

---
 sources/files.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/files.h b/sources/files.h
index 6be62b9..cb5f039 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -524,7 +524,7 @@ private:
     };
 
     std::map<std::string, std::pair<id_type, int>, Less> m_table{Less{this->cmpfn_}};
-    bool m_dirty;
+    bool m_dirty{};
 
 private:
     void initialize() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-- 
2.43.0


From 509bf2111019bc0357da732cdb067db7303360a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 18/22] fix: lite getxattr failed when the buffer was larger
 than the value

---
 sources/lite_format.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 92bbee9..50a12d3 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1131,9 +1131,12 @@ int FuseHighLevelOps::vgetxattr(const char* path,
     {
         return static_cast<int>(rc);
     }
-    xattr_->decrypt(
-        underlying_data.data(), underlying_data.size(), reinterpret_cast<byte*>(value), size);
-    return static_cast<int>(xattr_->infer_decrypted_size(rc));
+    auto decrypted_size = xattr_->infer_decrypted_size(rc);
+    xattr_->decrypt(underlying_data.data(),
+                    static_cast<size_t>(rc),
+                    reinterpret_cast<byte*>(value),
+                    decrypted_size);
+    return static_cast<int>(decrypted_size);
 }
 int FuseHighLevelOps::vsetxattr(const char* path,
                                 const char* name,
-- 
2.43.0


From 9bb56a93c09db79da0818ab0bd91d73f27392a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:05 +0000
Subject: [PATCH 19/22] fix: lite setxattr reported success without storing an
 empty value

---
 sources/lite_format.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 50a12d3..eb03937 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1150,9 +1150,9 @@ int FuseHighLevelOps::vsetxattr(const char* path,
     {
         return -EINVAL;
     }
-    if (!value || size == 0)
+    if (!value && size > 0)
     {
-        return 0;
+        return -EFAULT;
     }
 
     std::string wrapped_name = generic_xattr::encrypt_xattr_name(xattr_name_cryptor_.get(), name);
-- 
2.43.0


From 013cca0247064ca8ad9d050db95d46b9be7102a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:53 +0000
Subject: [PATCH 20/22] fix: rebuild a directory's tree from copies of its
 entries

BtreeDirectory::rebuild() moved the names out of the cached nodes while it was
still reading further pages. When one of those could not be read, the emptied
nodes stayed in the cache, marked dirty, and the destructor wrote them back:
every name in them was lost.
---
 sources/btree_dir.cpp | 17 ++++++-----------
 sources/btree_dir.h   |  3 ---
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/sources/btree_dir.cpp b/sources/btree_dir.cpp
index 5994c14..35be911 100644
--- a/sources/btree_dir.cpp
+++ b/sources/btree_dir.cpp
@@ -728,16 +728,6 @@ void BtreeDirectory::recursive_iterate(const BtreeNode* n, const Callback& cb, i
         recursive_iterate(retrieve_node(n->page_number(), c), cb, depth + 1);
 }
 
-template <class Callback>
-void BtreeDirectory::mutable_recursive_iterate(BtreeNode* n, const Callback& cb, int depth)
-{
-    dir_check(depth < BTREE_MAX_DEPTH);
-    for (Entry& e : n->mutable_entries())
-        cb(std::move(e));
-    for (uint32_t c : n->children())
-        mutable_recursive_iterate(retrieve_node(n->page_number(), c), cb, depth + 1);
-}
-
 void BtreeDirectory::iterate_over_entries_impl(const BtreeDirectory::callback& cb)
 {
     auto root = get_root_node();
@@ -753,7 +743,12 @@ void BtreeDirectory::rebuild()
 
     std::vector<DirEntry> entries;
     entries.reserve(this->m_stream->size() / BLOCK_SIZE * BTREE_MAX_NUM_ENTRIES);
-    mutable_recursive_iterate(root, [&](DirEntry&& e) { entries.push_back(std::move(e)); }, 0);
+    // Copy the entries: if a later page cannot be read, the cached nodes must still be intact.
+    recursive_iterate(
+        root,
+        [&](const std::string& name, const id_type& id, int type)
+        { entries.push_back(DirEntry{name, id, static_cast<uint32_t>(type)}); },
+        0);
     clear_cache();    // root is invalid after this line
     m_stream->resize(0);
     set_num_free_page(0);
diff --git a/sources/btree_dir.h b/sources/btree_dir.h
index 5068b2e..b2b0a23 100644
--- a/sources/btree_dir.h
+++ b/sources/btree_dir.h
@@ -160,9 +160,6 @@ private:
     template <class Callback>
     void recursive_iterate(const Node* n, const Callback& cb, int depth)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-    template <class Callback>
-    void mutable_recursive_iterate(Node* n, const Callback& cb, int depth)
-        ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
 protected:
     void subflush() override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-- 
2.43.0


From 3f7adf69a660603ad413ff5de310462b88f4d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:10 +0000
Subject: [PATCH 21/22] fix: hold the repository lock until the file table has
 been flushed

---
 sources/full_format.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/full_format.h b/sources/full_format.h
index 733a564..fc84b02 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -60,8 +60,8 @@ public:
                      StrongType<bool, tCaseInsensitive> case_insensitive,
                      StrongType<bool, tEnableXattr> enable_xattr)
         : root_(std::move(root))
-        , ft_(std::move(ft))
         , locker_(std::move(locker))
+        , ft_(std::move(ft))
         , owner_override_(owner_override)
         , case_insensitive_(case_insensitive.get())
         , enable_xattr_(enable_xattr.get())
@@ -148,9 +148,10 @@ public:
 
 private:
     std::shared_ptr<OSService> root_;
+    // We only needs this to construct and destruct. It precedes the file table because the lock must
+    // be held until the file table has flushed everything in its destructor.
+    [[maybe_unused]] std::shared_ptr<RepoLocker> locker_;
     std::shared_ptr<FileTable> ft_;
-    [[maybe_unused]] std::shared_ptr<RepoLocker>
-        locker_;    // We only needs this to construct and destruct.
     OwnerOverride owner_override_;
     bool case_insensitive_;
     bool enable_xattr_;
-- 
2.43.0


From 92226afe6f4ce9e33aae5314654aa91cb8dda4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:10 +0000
Subject: [PATCH 22/22] fix: take the repository lock before reading the volume

---
 sources/internal_mount.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index c63c320..90e0332 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -183,9 +183,10 @@ make_full_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
                                      const DecryptedSecurefsParams& params,
                                      const MountOptions& mount_options)
 {
-    auto file_table = make_file_table(os_service, params, mount_options);
+    // The file table reads the root directory, so the lock must already be held.
     auto locker = std::make_shared<full_format::RepoLocker>(
         os_service, StrongType<bool, tReadOnly>(mount_options.read_only()));
+    auto file_table = make_file_table(os_service, params, mount_options);
     OwnerOverride owner_override{};
     if (mount_options.has_uid_override())
     {
-- 
2.43.0

