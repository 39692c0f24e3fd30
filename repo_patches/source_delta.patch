From 5346a9a0ba517c42ad69ec64d85da979280741ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 01/59] fix: keep a lite directory's long names when rmdir
 fails

rmdir deleted the long name table before trying to remove the directory, so
rmdir of a non-empty directory failed with ENOTEMPTY but made every long file
name in it unreadable.
---
 sources/lite_format.cpp | 39 ++++++++++++++++++++++++++++++++++++---
 sources/lite_format.h   |  4 ++++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 12ba4f0..e20aa62 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -962,9 +962,17 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
                                LongNameComponentAction::kDelete,
                                [&](std::string&& enc_path)
                                {
-                                   root_->remove_file_nothrow(
-                                       absl::StrCat(enc_path, "/", kLongNameTableFileName));
-                                   root_->remove_directory(enc_path);
+                                   try
+                                   {
+                                       root_->remove_directory(enc_path);
+                                   }
+                                   catch (const ExceptionBase&)
+                                   {
+                                       // The table must survive when the directory does.
+                                       if (!remove_sole_long_name_table(enc_path))
+                                           throw;
+                                       root_->remove_directory(enc_path);
+                                   }
                                });
     return 0;
 }
@@ -1189,6 +1197,31 @@ std::string FuseHighLevelOps::long_name_table_file_name(absl::string_view enc_pa
     return root_->norm_path_narrowed(
         absl::StrCat(name_trans_->remove_last_component(enc_path), "/", kLongNameTableFileName));
 }
+bool FuseHighLevelOps::remove_sole_long_name_table(const std::string& enc_dir)
+{
+    if (name_trans_->is_no_op())
+    {
+        // There are no tables, and a file of that name is a user file.
+        return false;
+    }
+    bool has_table = false;
+    auto traverser = root_->create_traverser(enc_dir);
+    std::string name;
+    while (traverser->next(&name, nullptr))
+    {
+        if (name == kLongNameTableFileName)
+        {
+            has_table = true;
+        }
+        else if (name != "." && name != "..")
+        {
+            return false;
+        }
+    }
+    traverser.reset();
+    return has_table
+        && root_->remove_file_nothrow(absl::StrCat(enc_dir, "/", kLongNameTableFileName));
+}
 void FuseHighLevelOps::process_possible_long_name(
     absl::string_view path,
     LongNameComponentAction action,
diff --git a/sources/lite_format.h b/sources/lite_format.h
index c8abcae..a50b298 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -429,6 +429,10 @@ private:
                                     absl::FunctionRef<void(std::string&& enc_path)> callback);
 
     std::string long_name_table_file_name(absl::string_view enc_path);
+
+    // Removes the long name table of a directory that contains nothing else. Returns false, with
+    // nothing removed, for any other directory.
+    bool remove_sole_long_name_table(const std::string& enc_dir);
 };
 
 void change_long_name_suffix(const std::string& data_dir,
-- 
2.43.0


From d57ee7f94504be100fa4bf2141674b20eb997336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 02/59] fix: truncate a lite file on open without replacing its
 header

With atomic_o_trunc the kernel passes O_TRUNC to open. Passing it on to the
backing file removed the header, so other open handles of the file kept using a
session key that no longer matched: their reads failed, and what they wrote
afterwards could never be decrypted.
---
 sources/lite_format.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index e20aa62..c4eb014 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1173,6 +1173,9 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
     {
         flags = (flags & ~O_ACCMODE) | O_RDWR;
     }
+    // The header must survive truncation, because other handles of the same file depend on it.
+    const bool truncate = (flags & O_TRUNC) != 0;
+    flags &= ~O_TRUNC;
     if ((flags & O_CREAT))
     {
         mode |= S_IRUSR;
@@ -1185,7 +1188,7 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
         [&](std::string&& enc_path)
         { fp = std::make_unique<File>(root_->open_file_stream(enc_path, flags, mode), *opener_); });
 
-    if (flags & O_TRUNC)
+    if (truncate)
     {
         LockGuard<File> lock_guard(*fp, true);
         fp->resize(0);
-- 
2.43.0


From ef981bd951c6a8d692d3c27f5118cef352fefbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 03/59] fix: keep both long names when renaming between links
 of one lite file

rename(2) does nothing when both paths are links of the same file, but the long
name of the source was removed from its table, which hid the entry.
---
 sources/lite_format.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index c4eb014..371ad3b 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1037,6 +1037,15 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
         return 0;
     }
 
+    fuse_stat stat_from{}, stat_to{};
+    if (root_->stat(enc_from, &stat_from) && root_->stat(enc_to, &stat_to)
+        && stat_from.st_dev == stat_to.st_dev && stat_from.st_ino == stat_to.st_ino
+        && stat_from.st_ino != 0)
+    {
+        // Renaming between two links of the same file does nothing, so both names must remain.
+        return 0;
+    }
+
     DoubleLongNameLookupTable table(long_name_table_file_name(enc_from),
                                     long_name_table_file_name(enc_to));
     LockGuard<decltype(table)> lg(table);
-- 
2.43.0


From c18c5d24105dae409bc89737400484a45194fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 04/59] fix: let a lite rename replace an empty directory with
 a leftover long name table

A directory that once held a long-named entry keeps its table file, so renaming
another directory onto it failed with ENOTEMPTY although it is empty.
---
 sources/lite_format.cpp | 20 ++++++++++++++++++--
 sources/lite_format.h   |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 371ad3b..5030742 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1033,7 +1033,7 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     if (encrypted_last_component_from.empty() && encrypted_last_component_to.empty())
     {
         // Neither are long name, so fast path.
-        root_->rename(enc_from, enc_to);
+        rename_encrypted(enc_from, enc_to);
         return 0;
     }
 
@@ -1059,7 +1059,7 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
         table.update_mapping_to_to_db(name_trans_->get_last_component(enc_to),
                                       encrypted_last_component_to);
     }
-    root_->rename(enc_from, enc_to);
+    rename_encrypted(enc_from, enc_to);
     return 0;
 }
 int FuseHighLevelOps::vfsync(const char* path,
@@ -1209,6 +1209,22 @@ std::string FuseHighLevelOps::long_name_table_file_name(absl::string_view enc_pa
     return root_->norm_path_narrowed(
         absl::StrCat(name_trans_->remove_last_component(enc_path), "/", kLongNameTableFileName));
 }
+void FuseHighLevelOps::rename_encrypted(const std::string& enc_from, const std::string& enc_to)
+{
+    try
+    {
+        root_->rename(enc_from, enc_to);
+    }
+    catch (const ExceptionBase& e)
+    {
+        if (e.error_number() != ENOTEMPTY && e.error_number() != EEXIST)
+            throw;
+        // An empty directory may be replaced, even if its long name table remains in it.
+        if (!remove_sole_long_name_table(enc_to))
+            throw;
+        root_->rename(enc_from, enc_to);
+    }
+}
 bool FuseHighLevelOps::remove_sole_long_name_table(const std::string& enc_dir)
 {
     if (name_trans_->is_no_op())
diff --git a/sources/lite_format.h b/sources/lite_format.h
index a50b298..92c7f69 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -433,6 +433,8 @@ private:
     // Removes the long name table of a directory that contains nothing else. Returns false, with
     // nothing removed, for any other directory.
     bool remove_sole_long_name_table(const std::string& enc_dir);
+
+    void rename_encrypted(const std::string& enc_from, const std::string& enc_to);
 };
 
 void change_long_name_suffix(const std::string& data_dir,
-- 
2.43.0


From b2aff0434f1d8293144edf74264368eecbaeb781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 05/59] fix: keep the entry when rmdir of a full-format
 directory fails

rmdir removed the directory entry before it checked that the directory is empty,
so rmdir of a non-empty directory failed with ENOTEMPTY but made the whole
subtree unreachable.
---
 sources/full_format.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 9b06aa4..bf16f11 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -226,22 +226,30 @@ int FuseHighLevelOps::vmkdir(const char* path, fuse_mode_t mode, const fuse_cont
 int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
 {
     auto [dirholder, last_component] = open_base(path);
-    id_type id;
-    int type;
+    id_type id, removed_id;
+    int type, removed_type;
 
     {
         FileLockGuard lg(*dirholder);
-        if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
+        if (!dirholder->cast_as<Directory>()->get_entry(last_component, id, type))
         {
             return -ENOENT;
         }
     }
 
     auto fp = ft_->open_as(id, type);
-    FileLockGuard lg(*fp);
-    fp->cast_as<Directory>()->iterate_over_entries(
-        [](const std::string& name, const id_type& id, int type) -> bool
-        { throwVFSException(ENOTEMPTY); });
+    DoubleFileLockGuard lg(*dirholder, *fp);
+    if (!fp->cast_as<Directory>()->empty())
+    {
+        return -ENOTEMPTY;
+    }
+    // The entry may have changed while the lock was not held.
+    if (!dirholder->cast_as<Directory>()->get_entry(last_component, removed_id, removed_type)
+        || removed_id != id)
+    {
+        return -ENOENT;
+    }
+    dirholder->cast_as<Directory>()->remove_entry(last_component, removed_id, removed_type);
     fp->unlink();
     return 0;
 };
-- 
2.43.0


From 82ccc9b75488cb1cbc6fe3f6c5df3b85e53f1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 06/59] fix: link a full-format symlink itself, not what it
 points to

---
 sources/full_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index bf16f11..c715ea2 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -295,7 +295,7 @@ int FuseHighLevelOps::vsymlink(const char* to, const char* from, const fuse_cont
 };
 int FuseHighLevelOps::vlink(const char* src, const char* dest, const fuse_context* ctx)
 {
-    auto opened = open_all(src, true);
+    auto opened = open_all(src);
     if (!opened)
     {
         return -ENOENT;
-- 
2.43.0


From aa227dd3793c0f7cf7e450ab54f98b6fc15547d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 07/59] fix: do not let a full-format rename lose a non-empty
 target or an overlong name

---
 sources/full_format.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index c715ea2..dfac299 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -340,6 +340,26 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     int from_type, to_type;
     bool has_to_item = false;
 
+    {
+        DoubleFileLockGuard lg(*base_from, *base_to);
+
+        if (!base_from->cast_as<Directory>()->get_entry(last_from, from_id, from_type))
+        {
+            return -ENOENT;
+        }
+        has_to_item
+            = base_to->cast_as<Directory>()->get_entry(last_to, to_id, to_type).has_value();
+    }
+    if (has_to_item && from_id != to_id && to_type == Directory::class_type())
+    {
+        auto holder = ft_->open_as(to_id, to_type);
+        FileLockGuard lg(*holder);
+        if (!holder->cast_as<Directory>()->empty())
+        {
+            return -ENOTEMPTY;
+        }
+    }
+
     {
         DoubleFileLockGuard lg(*base_from, *base_to);
 
-- 
2.43.0


From ca88de6494c61e65cc967c1d62f68f038f3c5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 08/59] fix: reject writes and extensions beyond the format's
 limit before growing the file

---
 sources/lite_stream.cpp | 6 ++++++
 sources/lite_stream.h   | 1 +
 sources/streams.cpp     | 9 ++++++++-
 sources/streams.h       | 2 ++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/sources/lite_stream.cpp b/sources/lite_stream.cpp
index 72bdc47..0bf4a54 100644
--- a/sources/lite_stream.cpp
+++ b/sources/lite_stream.cpp
@@ -261,6 +261,12 @@ void AESGCMCryptStream::adjust_logical_size(length_type length)
                      + (residue > 0 ? residue + get_iv_size() + get_mac_size() : 0));
 }
 
+void AESGCMCryptStream::check_size_limit(length_type size) const
+{
+    if (size > MAX_BLOCKS * m_block_size)
+        throw StreamTooLongException(MAX_BLOCKS * m_block_size, size);
+}
+
 length_type AESGCMCryptStream::calculate_real_size(length_type underlying_size,
                                                    length_type block_size,
                                                    length_type iv_size) noexcept
diff --git a/sources/lite_stream.h b/sources/lite_stream.h
index 79efb10..a702dd5 100644
--- a/sources/lite_stream.h
+++ b/sources/lite_stream.h
@@ -70,6 +70,7 @@ protected:
                             const void* input) override;
 
     void adjust_logical_size(length_type length) override;
+    void check_size_limit(length_type size) const override;
 
 public:
     explicit AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
diff --git a/sources/streams.cpp b/sources/streams.cpp
index 91c1263..7f339bc 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -205,6 +205,7 @@ void BlockBasedStream::write(const void* input, offset_type offset, length_type
     {
         return;
     }
+    check_size_limit(offset + length);
     auto current_size = this->size();
     if (offset > current_size)
         unchecked_resize(current_size, offset);
@@ -285,6 +286,7 @@ void BlockBasedStream::unchecked_resize(length_type current_size, length_type ne
     }
     else
     {
+        check_size_limit(new_size);
         auto old_block_num = current_size / m_block_size;
         auto new_block_num = new_size / m_block_size;
         if (!is_sparse() || old_block_num == new_block_num)
@@ -332,7 +334,7 @@ namespace internal
             return get_encrypted_header_size() + get_meta_size() * (block_num);
         }
 
-        void check_block_number(offset_type block_number)
+        void check_block_number(offset_type block_number) const
         {
             if (block_number > max_block_number)
                 throw StreamTooLongException(max_block_number * this->m_block_size,
@@ -468,6 +470,11 @@ namespace internal
             return data_read_len;
         }
 
+        void check_size_limit(length_type size) const override
+        {
+            check_block_number((size + m_block_size - 1) / m_block_size);
+        }
+
         void adjust_logical_size(length_type length) override
         {
             m_stream->resize(length);
diff --git a/sources/streams.h b/sources/streams.h
index af20b37..d4dcb16 100644
--- a/sources/streams.h
+++ b/sources/streams.h
@@ -107,6 +107,8 @@ protected:
                                     const void* input)
         = 0;
     virtual void adjust_logical_size(length_type length) = 0;
+    // Throws if the stream can never grow to `size`.
+    virtual void check_size_limit(length_type size) const {}
 
 private:
     struct ZeroFillTag
-- 
2.43.0


From 08bbd4397c92337a580072b87f33723837a20fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 09/59] fix: decrypt exactly the stored lite attribute value
 whatever buffer size is offered

---
 sources/lite_format.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 5030742..d3c2634 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1130,9 +1130,12 @@ int FuseHighLevelOps::vgetxattr(const char* path,
     {
         return static_cast<int>(rc);
     }
-    xattr_->decrypt(
-        underlying_data.data(), underlying_data.size(), reinterpret_cast<byte*>(value), size);
-    return static_cast<int>(xattr_->infer_decrypted_size(rc));
+    auto decrypted_size = xattr_->infer_decrypted_size(rc);
+    xattr_->decrypt(underlying_data.data(),
+                    static_cast<size_t>(rc),
+                    reinterpret_cast<byte*>(value),
+                    decrypted_size);
+    return static_cast<int>(decrypted_size);
 }
 int FuseHighLevelOps::vsetxattr(const char* path,
                                 const char* name,
-- 
2.43.0


From 4400e977158c258669ed9ad460326f82e3f7fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 10/59] fix: store empty extended attribute values in the lite
 format instead of dropping them

---
 sources/lite_format.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index d3c2634..3aaeca5 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1149,9 +1149,9 @@ int FuseHighLevelOps::vsetxattr(const char* path,
     {
         return -EINVAL;
     }
-    if (!value || size == 0)
+    if (!value)
     {
-        return 0;
+        return -EFAULT;
     }
 
     std::string wrapped_name = generic_xattr::encrypt_xattr_name(xattr_name_cryptor_.get(), name);
-- 
2.43.0


From ed9e53d7a54d5d4ac15609d40831ffc33c6408f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 11/59] fix: refuse NUL characters in base32 text

---
 sources/mystring.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/mystring.cpp b/sources/mystring.cpp
index fc435d2..9731779 100644
--- a/sources/mystring.cpp
+++ b/sources/mystring.cpp
@@ -246,6 +246,11 @@ void base32_decode(const char* input, size_t size, std::string& output)
     for (size_t i = 0; i < size; ++i)
     {
         unsigned group;
+        if (input[i] == '\0')
+        {
+            // std::strchr below would find the terminator of the alphabet.
+            throwInvalidArgumentException("Cannot decode string with base32");
+        }
         const char* finded = std::strchr(UPPER_BASE32_ALPHABET, input[i]);
         if (finded)
             group = unsigned(finded - UPPER_BASE32_ALPHABET);
-- 
2.43.0


From 93a61f232edadff37cc17f7b1087b49bc9351b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 12/59] fix: refuse a config whose authentication code is cut

---
 sources/params_io.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/params_io.cpp b/sources/params_io.cpp
index 8d121e3..6bc6fcd 100644
--- a/sources/params_io.cpp
+++ b/sources/params_io.cpp
@@ -202,6 +202,11 @@ DecryptedSecurefsParams decrypt(const LegacySecurefsJsonParams& legacy,
             auto ciphertext = parse_hex(legacy.encrypted_key().ciphertext());
             auto header = get_version_header(legacy.version());
 
+            if (mac.size() != kParamMacSize)
+            {
+                return false;    // A cut MAC would authenticate less or nothing at all.
+            }
+
             CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
             dec.SetKeyWithIV(wrapping_key.data(), wrapping_key.size(), iv.data(), iv.size());
             master_key.resize(ciphertext.size());
@@ -280,6 +285,11 @@ DecryptedSecurefsParams decrypt(const EncryptedSecurefsParams& encparams,
                                 absl::Span<const byte> password,
                                 /* nullable */ StreamBase* key_stream)
 {
+    if (encparams.mac().size() != kParamMacSize)
+    {
+        // A cut MAC would authenticate less or nothing at all.
+        throw PasswordOrKeyfileIncorrectException();
+    }
     auto wrapping_key = compute_password_derived_key(encparams, password, key_stream);
     CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
     dec.SetKeyWithIV(wrapping_key.data(),
-- 
2.43.0


From b94f965fa9122be1057ac9fabcfb10e9d2d3c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 13/59] fix: apply the owner overrides in the lite format too

---
 sources/internal_mount.cpp | 33 ++++++++++++++++++++++-----------
 sources/lite_format.cpp    | 13 +++++++++++++
 sources/lite_format.h      |  7 ++++++-
 3 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index c63c320..0d023fe 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -176,6 +176,20 @@ namespace
         }
     }
 
+    OwnerOverride make_owner_override(const MountOptions& mount_options)
+    {
+        OwnerOverride owner_override{};
+        if (mount_options.has_uid_override())
+        {
+            owner_override.uid_override = mount_options.uid_override();
+        }
+        if (mount_options.has_gid_override())
+        {
+            owner_override.gid_override = mount_options.gid_override();
+        }
+        return owner_override;
+    }
+
 }    // namespace
 
 std::shared_ptr<full_format::FuseHighLevelOps>
@@ -186,20 +200,11 @@ make_full_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
     auto file_table = make_file_table(os_service, params, mount_options);
     auto locker = std::make_shared<full_format::RepoLocker>(
         os_service, StrongType<bool, tReadOnly>(mount_options.read_only()));
-    OwnerOverride owner_override{};
-    if (mount_options.has_uid_override())
-    {
-        owner_override.uid_override = mount_options.uid_override();
-    }
-    if (mount_options.has_gid_override())
-    {
-        owner_override.gid_override = mount_options.gid_override();
-    }
     return std::make_shared<full_format::FuseHighLevelOps>(
         std::move(os_service),
         std::move(file_table),
         std::move(locker),
-        owner_override,
+        make_owner_override(mount_options),
         StrongType<bool, tCaseInsensitive>(params.full_format_params().case_insensitive()),
         StrongType<bool, tEnableXattr>(mount_options.enable_xattr()));
 }
@@ -248,7 +253,13 @@ make_lite_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
 
     // Construct and return FuseHighLevelOps
     return std::make_shared<lite_format::FuseHighLevelOps>(
-        os_service, opener, name_trans, xattr, xattr_master_key, enable_xattr);
+        os_service,
+        opener,
+        name_trans,
+        xattr,
+        xattr_master_key,
+        enable_xattr,
+        make_owner_override(mount_options));
 }
 
 std::shared_ptr<FuseHighLevelOpsBase>
diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 3aaeca5..3a5ddcd 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -770,6 +770,7 @@ int FuseHighLevelOps::vgetattr(const char* path, fuse_stat* buf, const fuse_cont
     auto enc_path = name_trans_->encrypt_full_path(path, nullptr);
     if (!root_->stat(enc_path, buf))
         return -ENOENT;
+    postprocess_stat(buf);
     if (buf->st_size <= 0)
         return 0;
     switch (buf->st_mode & S_IFMT)
@@ -842,6 +843,7 @@ int FuseHighLevelOps::vfgetattr(const char* path,
     auto fp = get_base(info);
     LockGuard<Base> lg(*fp);
     fp->fstat(st);
+    postprocess_stat(st);
     return 0;
 }
 int FuseHighLevelOps::vopendir(const char* path, fuse_file_info* info, const fuse_context* ctx)
@@ -1170,6 +1172,17 @@ int FuseHighLevelOps::vremovexattr(const char* path, const char* name, const fus
     return root_->removexattr(name_trans_->encrypt_full_path(path, nullptr).c_str(),
                               wrapped_name.c_str());
 }
+void FuseHighLevelOps::postprocess_stat(fuse_stat* st) const
+{
+    if (owner_override_.uid_override.has_value())
+    {
+        st->st_uid = *owner_override_.uid_override;
+    }
+    if (owner_override_.gid_override.has_value())
+    {
+        st->st_gid = *owner_override_.gid_override;
+    }
+}
 std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, unsigned mode)
 {
     if (flags & O_APPEND)
diff --git a/sources/lite_format.h b/sources/lite_format.h
index 92c7f69..b9ae55b 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -317,7 +317,8 @@ public:
                      std::shared_ptr<NameTranslator> name_trans,
                      std::shared_ptr<XattrCryptor> xattr,
                      const StrongType<key_type, tXattrMasterKey>& xattr_key,
-                     StrongType<bool, tEnableXattr> enable_xattr)
+                     StrongType<bool, tEnableXattr> enable_xattr,
+                     const OwnerOverride& owner_override = {})
         : FuseHighLevelOps(std::move(root),
                            std::move(opener),
                            std::move(name_trans),
@@ -325,6 +326,7 @@ public:
                            xattr_key.get(),
                            enable_xattr.get())
     {
+        owner_override_ = owner_override;
     }
 
     bool has_symlink() const override { return !is_windows(); }
@@ -413,10 +415,13 @@ private:
     ThreadLocal<AES_SIV> xattr_name_cryptor_;
     bool enable_xattr_;
     bool read_dir_plus_ = false;
+    OwnerOverride owner_override_{};
 
 private:
     std::unique_ptr<File> open(std::string_view path, int flags, unsigned mode);
 
+    void postprocess_stat(fuse_stat* st) const;
+
     enum class LongNameComponentAction : unsigned char
     {
         kCreate = 0,
-- 
2.43.0


From c21b5395cdb5bdb5af1df6f49059c5a2999b0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 14/59] fix: initialise the change time that utimens stores

---
 sources/files.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/files.cpp b/sources/files.cpp
index ff60aa2..973b8a6 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -336,7 +336,8 @@ void FileBase::utimens(const fuse_timespec* ts)
 {
     if (m_store_time)
     {
-        fuse_timespec current_time;
+        fuse_timespec current_time{};
+        OSService::get_current_time(current_time);
 
         if (ts)
         {
-- 
2.43.0


From ccbde1c18bf2886d2e59ec13f2b6215c760c1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 15/59] fix: do not leave an orphaned object when a full-format
 entry cannot be added

---
 sources/full_format.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index dfac299..eaab3cf 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -622,10 +622,18 @@ FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int ui
         holder->initialize_empty((mode & 0777) | FileBase::mode_for_type(type), uid, gid);
     }
     bool success = false;
+    try
     {
         FileLockGuard lg(*base_dir);
         success = base_dir->cast_as<Directory>()->add_entry(last_component, holder->get_id(), type);
     }
+    catch (...)
+    {
+        // No entry refers to the new object, so it must not stay in the storage.
+        FileLockGuard lg(*holder);
+        holder->unlink();
+        throw;
+    }
     if (!success)
     {
         FileLockGuard lg(*holder);
-- 
2.43.0


From 79c9fa0424996e8244d2c41e33e3a2fb3d4006bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 16/59] fix: detect full-format data files that lost or gained
 whole blocks

---
 sources/streams.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sources/streams.cpp b/sources/streams.cpp
index 7f339bc..fc7c019 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -366,6 +366,16 @@ namespace internal
             m_dec.SetKeyWithIV(data_key.data(), data_key.size(), null_iv, array_length(null_iv));
             warn_if_key_not_random(data_key, __FILE__, __LINE__);
             warn_if_key_not_random(meta_key, __FILE__, __LINE__);
+            if (check)
+            {
+                // The HMAC covers the metadata only, so the data must have as many blocks.
+                auto block_num = (m_stream->size() + m_block_size - 1) / m_block_size;
+                auto meta_size = m_metastream.size();
+                if (meta_size > meta_position_for_iv(block_num) || (!meta_size && block_num))
+                {
+                    throw CorruptedMetaDataException(id(), "Data and metadata do not match");
+                }
+            }
         }
 
     protected:
@@ -437,6 +447,13 @@ namespace internal
             {
                 throw MessageVerificationException(id(), start_block * m_block_size);
             }
+            auto meta_blocks = meta_read_len / get_meta_size();
+            if (m_check && data_read_len > meta_blocks * m_block_size)
+            {
+                // There is data that no metadata authenticates.
+                throw MessageVerificationException(
+                    id(), (start_block + meta_blocks) * m_block_size);
+            }
             memset(output, 0, data_buffer_size);
 
             for (length_type i = 0; i < data_read_len;)
-- 
2.43.0


From 84355bb196be6d0baa43e504bdff182c18ceea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 17/59] fix: verify the stored bytes of a symlink whose data
 was cut

---
 sources/files.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/files.h b/sources/files.h
index ce44fe5..268693d 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -412,7 +412,8 @@ public:
 
     std::string get() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
     {
-        std::string result(m_stream->size(), 0);
+        // Ask for more than there should be, so that the end of the target is verified too.
+        std::string result(m_stream->size() + 1, 0);
         auto rc = m_stream->read(&result[0], 0, result.size());
         result.resize(rc);
         update_atime_helper();
-- 
2.43.0


From 54801487bdf8f9611e1f2b2b398c880df678f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 18/59] fix: do not list backing names that are no valid
 encodings under another entry's name

---
 sources/lite_format.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 3a5ddcd..add5b13 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -672,7 +672,8 @@ namespace
                 try
                 {
                     std::visit(Overload{[&](std::string&& decoded) { decoded.swap(*name); },
-                                        [](const InvalidNameTag&) {},
+                                        [&](const InvalidNameTag&)
+                                        { throw InvalidFilenameException(under_name); },
                                         [&](const LongNameTag&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
                                         {
                                             auto&& table = lazy_get_table();
-- 
2.43.0


From b2fe8d9fae58c264edffcbd8b87080206d5db6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 19/59] fix: refuse stored link targets too short to be
 decrypted

---
 sources/lite_format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index add5b13..5b9be8a 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -302,6 +302,8 @@ namespace
                         base32_decode(slice, slice_size, decoded_part);
                         if (decoded_part.size() >= sizeof(string_buffer))
                             throwVFSException(ENAMETOOLONG);
+                        if (decoded_part.size() < kSIVSize)
+                            throw InvalidFilenameException(std::string(path));
 
                         bool success = decryptor.decrypt_and_verify(&decoded_part[kSIVSize],
                                                                     decoded_part.size() - kSIVSize,
-- 
2.43.0


From 4265547b3e7fa38a0105d9064b37a9d42e6873a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 20/59] fix: report a proper error when an object is not of the
 expected type

A path leading through a regular file in the full format, for example,
failed with EPERM instead of ENOTDIR.
---
 sources/exceptions.h | 7 +++++--
 sources/files.cpp    | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/exceptions.h b/sources/exceptions.h
index adbd9fb..35e7d27 100644
--- a/sources/exceptions.h
+++ b/sources/exceptions.h
@@ -217,10 +217,11 @@ class InvalidCastException final : public ExceptionBase
 private:
     const char* from_name;
     const char* to_name;
+    int errc;
 
 public:
-    explicit InvalidCastException(const char* from_name, const char* to_name)
-        : from_name(from_name), to_name(to_name)
+    explicit InvalidCastException(const char* from_name, const char* to_name, int errc)
+        : from_name(from_name), to_name(to_name), errc(errc)
     {
     }
 
@@ -228,6 +229,8 @@ public:
     {
         return absl::StrFormat("Invalid cast from %s to %s", from_name, to_name);
     }
+
+    int error_number() const noexcept override { return errc; }
 };
 
 class FileTypeInconsistencyException : public ExceptionBase
diff --git a/sources/files.cpp b/sources/files.cpp
index 973b8a6..e1dc3ac 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -277,7 +277,10 @@ void FileBase::flush()
 
 void FileBase::throw_invalid_cast(int to_type)
 {
-    throw InvalidCastException(type_name(this->type()), type_name(to_type));
+    int errc = to_type == Directory::class_type() ? ENOTDIR
+        : this->type() == Directory::class_type() ? EISDIR
+                                                  : EINVAL;
+    throw InvalidCastException(type_name(this->type()), type_name(to_type), errc);
 }
 
 // The IV size is for historical reasons. Doesn't really matter.
-- 
2.43.0


From f8cea83ffd11a188c2c5046072065c9acd31ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 21/59] fix: give SQLite failures a proper error number

A failure of the long name table, such as a missing directory or a full
disk, was always reported as EPERM.
---
 sources/sqlite_helper.cpp | 30 +++++++++++++++++++++++++++---
 sources/sqlite_helper.h   |  9 ++++++++-
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/sources/sqlite_helper.cpp b/sources/sqlite_helper.cpp
index a47f2e0..3445a58 100644
--- a/sources/sqlite_helper.cpp
+++ b/sources/sqlite_helper.cpp
@@ -6,13 +6,36 @@
 namespace securefs
 {
 
+static int sqlite_error_number(int code, int system_errno) noexcept
+{
+    switch (code & 0xFF)
+    {
+    case SQLITE_CANTOPEN:
+    case SQLITE_IOERR:
+        return system_errno > 0 ? system_errno : EIO;
+    case SQLITE_NOMEM:
+        return ENOMEM;
+    case SQLITE_FULL:
+        return ENOSPC;
+    case SQLITE_READONLY:
+        return EROFS;
+    case SQLITE_BUSY:
+    case SQLITE_LOCKED:
+        return EBUSY;
+    default:
+        return EIO;
+    }
+}
+
 SQLiteException::SQLiteException(int code)
-    : runtime_error(absl::StrFormat("SQLite error %d: %s", code, sqlite3_errstr(code)))
+    : m_msg(absl::StrFormat("SQLite error %d: %s", code, sqlite3_errstr(code)))
+    , m_errno(sqlite_error_number(code, 0))
 {
 }
 
 SQLiteException::SQLiteException(sqlite3* db, int code)
-    : runtime_error(absl::StrFormat("SQLite error %d: %s", code, sqlite3_errmsg(db)))
+    : m_msg(absl::StrFormat("SQLite error %d: %s", code, sqlite3_errmsg(db)))
+    , m_errno(sqlite_error_number(code, db ? sqlite3_system_errno(db) : 0))
 {
 }
 
@@ -30,7 +53,8 @@ void check_sqlite_call(sqlite3* db, int code)
 SQLiteDB::SQLiteDB(const char* filename, int flags, const char* vfs)
 {
     ptr_ = std::make_shared<SQLiteDBWrapper>();
-    check_sqlite_call(sqlite3_open_v2(filename, &ptr_->db, flags, vfs));
+    int rc = sqlite3_open_v2(filename, &ptr_->db, flags, vfs);
+    check_sqlite_call(ptr_->db, rc);
 }
 
 void SQLiteDB::set_timeout(int ms) { check_sqlite_call(get(), sqlite3_busy_timeout(get(), ms)); }
diff --git a/sources/sqlite_helper.h b/sources/sqlite_helper.h
index 83016db..cb9a9b3 100644
--- a/sources/sqlite_helper.h
+++ b/sources/sqlite_helper.h
@@ -81,11 +81,18 @@ private:
     void prologue();
 };
 
-class SQLiteException : public std::runtime_error
+class SQLiteException : public ExceptionBase
 {
+private:
+    std::string m_msg;
+    int m_errno;
+
 public:
     explicit SQLiteException(int code);
     explicit SQLiteException(sqlite3* db, int code);
+
+    std::string message() const override { return m_msg; }
+    int error_number() const noexcept override { return m_errno; }
 };
 
 void check_sqlite_call(int code);
-- 
2.43.0


From 7b85b45ac2946c869efba84f60cb62c05329fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 22/59] fix: log symlink targets only when sensitive logging is
 allowed

Tracing a symlink call wrote the target in clear into the log, while
readlink redacts the same text.
---
 sources/fuse_high_level_ops_base.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sources/fuse_high_level_ops_base.cpp b/sources/fuse_high_level_ops_base.cpp
index 22f0dd4..3225a70 100644
--- a/sources/fuse_high_level_ops_base.cpp
+++ b/sources/fuse_high_level_ops_base.cpp
@@ -8,6 +8,7 @@
 
 #include <absl/functional/function_ref.h>
 #include <cerrno>
+#include <cstring>
 #include <memory>
 
 #if __has_include(<sys/ioctl.h>)
@@ -196,10 +197,14 @@ int FuseHighLevelOpsBase::static_symlink(const char* to, const char* from)
 {
     auto ctx = fuse_get_context();
     auto op = static_cast<FuseHighLevelOpsBase*>(ctx->private_data);
-    return trace::FuseTracer::traced_call([=]() { return op->vsymlink(to, from, ctx); },
-                                          "symlink",
-                                          __LINE__,
-                                          {{"to", {to}}, {"from", {from}}});
+    return trace::FuseTracer::traced_call(
+        [=]() { return op->vsymlink(to, from, ctx); },
+        "symlink",
+        __LINE__,
+        {op->allow_sensitive_logging()
+             ? trace::WrappedFuseArg{"to", {to}}
+             : trace::WrappedFuseArg{"to", trace::RedactedRawBuffer{to, strlen(to)}},
+         {"from", {from}}});
 }
 int FuseHighLevelOpsBase::static_link(const char* src, const char* dest)
 {
-- 
2.43.0


From f5d668f18cc42b3e50451d3b8bca2c7bb83df68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 23/59] fix: survive failing flushes of the root directory and
 at unmount

An exception from flushing the root directory escaped from the noexcept
holder of any call touching it, and one from the destructor of the file
table ended the process before the other files were flushed.
---
 sources/file_table_v2.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index e71e9be..247f6bd 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -121,14 +121,14 @@ std::unique_ptr<FileBase> FileTable::construct(int type,
 }
 void FileTable::close(const id_type& id)
 {
-    if (id == kRootId)
-    {
-        LockGuard<FileBase> lg(*root_);
-        root_->flush();
-        return;
-    }
     try
     {
+        if (id == kRootId)
+        {
+            LockGuard<FileBase> lg(*root_);
+            root_->flush();
+            return;
+        }
         close_internal(id);
     }
     catch (const std::exception& e)
@@ -198,19 +198,30 @@ void FileTable::close_internal(const id_type id)
 FileTable::~FileTable()
 {
     VERBOSE_LOG("Flushing all opened and cached file descriptors, please wait...");
-    root_->flush();
+    // A failure must neither escape from the destructor, nor keep the others from being flushed.
+    auto flush = [](FileBase* fb)
+    {
+        try
+        {
+            LockGuard<FileBase> inner_lg(*fb);
+            fb->flush();
+        }
+        catch (const std::exception& e)
+        {
+            ERROR_LOG("Failed to flush a file when unmounting: %s", e.what());
+        }
+    };
+    flush(root_.get());
     for (auto&& s : shards)
     {
         LockGuard<Mutex> lg(s.mu);
         for (auto&& pair : s.live_map)
         {
-            LockGuard<FileBase> inner_lg(*pair.second);
-            pair.second->flush();
+            flush(pair.second.get());
         }
         for (auto&& p : s.cache)
         {
-            LockGuard<FileBase> inner_lg(*p);
-            p->flush();
+            flush(p.get());
         }
     }
 }
-- 
2.43.0


From 7607cd64d74c305fd06a1de10ea4ffadf7e2c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 24/59] fix: refuse long-name suffixes under which ordinary
 names disappear

---
 sources/commands.cpp    |  2 ++
 sources/lite_format.cpp | 22 ++++++++++++++++++++++
 sources/lite_format.h   |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 2bf7b62..667b4bc 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -323,6 +323,7 @@ public:
                 params.mutable_lite_format_params()->set_long_name_threshold(
                     long_name_threshold.getValue());
             }
+            lite_format::validate_long_name_suffix(long_name_suffix_arg.getValue());
             params.mutable_lite_format_params()->set_long_name_suffix(
                 long_name_suffix_arg.getValue());
         }
@@ -1171,6 +1172,7 @@ public:
             {
                 threshold = max_filename_length * 5 / 8 - 16;
             }
+            lite_format::validate_long_name_suffix(long_name_suffix_arg.getValue());
             params.mutable_lite_format_params()->set_long_name_threshold(threshold);
             params.mutable_lite_format_params()->set_long_name_suffix(
                 long_name_suffix_arg.getValue());
diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 5b9be8a..c05d1ef 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1340,6 +1340,26 @@ std::string_view NameTranslator::remove_last_component(std::string_view path)
     return path.substr(0, path.rfind('/') + 1);
 }
 
+void validate_long_name_suffix(std::string_view suffix)
+{
+    if (suffix.empty())
+    {
+        return;    // Means the legacy suffix.
+    }
+    constexpr std::string_view kBase32Alphabet = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789";
+    constexpr size_t kMaxSuffixSize = 128;
+    if (suffix.find('/') != suffix.npos || suffix.find('\0') != suffix.npos
+        || suffix.size() > kMaxSuffixSize)
+    {
+        throw_runtime_error("The suffix for long names must be usable as part of a filename");
+    }
+    if (suffix.find_first_not_of(kBase32Alphabet) == suffix.npos)
+    {
+        throw_runtime_error("The suffix for long names must contain a character that never "
+                            "appears in encrypted names, such as a dot");
+    }
+}
+
 void change_long_name_suffix(const std::string& data_dir,
                              DecryptedSecurefsParams& mutable_params,
                              const std::string& new_long_name_suffix)
@@ -1358,6 +1378,8 @@ void change_long_name_suffix(const std::string& data_dir,
         return;
     }
 
+    validate_long_name_suffix(new_long_name_suffix);
+
     OSService root(data_dir);
     std::vector<std::string> dirs_with_long_name_table;
     root.recursive_traverse(".",
diff --git a/sources/lite_format.h b/sources/lite_format.h
index b9ae55b..4194fef 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -442,6 +442,10 @@ private:
     void rename_encrypted(const std::string& enc_from, const std::string& enc_to);
 };
 
+/// Throws if ordinary encrypted names could be mistaken for long ones under this suffix,
+/// or if it cannot be part of a filename.
+void validate_long_name_suffix(std::string_view suffix);
+
 void change_long_name_suffix(const std::string& data_dir,
                              DecryptedSecurefsParams& mutable_params,
                              const std::string& new_long_name_suffix);
-- 
2.43.0


From eea8dea029ce462f6e4344e013afdfcd223427bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 25/59] fix: change the long-name suffix of subdirectories
 before that of their parents

---
 sources/lite_format.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index c05d1ef..23a20b4 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -25,6 +25,7 @@
 #include <uni_algo/case.h>
 #include <uni_algo/norm.h>
 
+#include <algorithm>
 #include <array>
 #include <cerrno>
 #include <cstddef>
@@ -1391,6 +1392,12 @@ void change_long_name_suffix(const std::string& data_dir,
                                 }
                             });
 
+    // Subdirectories come first: they may themselves have long names, which change when their
+    // parents are processed.
+    std::sort(dirs_with_long_name_table.begin(),
+              dirs_with_long_name_table.end(),
+              [](const std::string& a, const std::string& b) { return a.size() > b.size(); });
+
     for (const auto& dir : dirs_with_long_name_table)
     {
         auto full_dir_name = root.norm_path_narrowed(dir);
-- 
2.43.0


From 4ee581dbfa362521a798870660994dda9cd0f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 26/59] fix: refuse long-name suffixes that make the config
 unreadable

---
 sources/lite_format.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 23a20b4..5a5e4f7 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1359,6 +1359,12 @@ void validate_long_name_suffix(std::string_view suffix)
         throw_runtime_error("The suffix for long names must contain a character that never "
                             "appears in encrypted names, such as a dot");
     }
+    DecryptedSecurefsParams params;
+    params.mutable_lite_format_params()->set_long_name_suffix(std::string(suffix));
+    if (!params.ParseFromString(params.SerializeAsString()))
+    {
+        throw_runtime_error("The suffix for long names must be valid UTF-8");
+    }
 }
 
 void change_long_name_suffix(const std::string& data_dir,
-- 
2.43.0


From b86ae750eb3303e9625e04c9372ef1fce932c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 27/59] fix: keep a pending wake-up of the timer when it is set
 again

---
 sources/resettable_timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/resettable_timer.cpp b/sources/resettable_timer.cpp
index 6ca9c91..ef85ec9 100644
--- a/sources/resettable_timer.cpp
+++ b/sources/resettable_timer.cpp
@@ -23,8 +23,8 @@ void ResettableTimer::setTimePoint(absl::Time trigger_time)
 {
     absl::MutexLock ml(&mu_);
     // If the new time point is in the future, then we can just let the work thread wake up
-    // naturally.
-    should_wake_up_ = trigger_time < this->trigger_time_;
+    // naturally. A wake up that is still pending must not be lost.
+    should_wake_up_ = should_wake_up_ || trigger_time < this->trigger_time_;
     this->trigger_time_ = trigger_time;
 
     if (!work_thread_.joinable())
-- 
2.43.0


From 53f1bcb9505dac607b8a1d27308a7d6a1b4e8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:35 +0000
Subject: [PATCH 28/59] fix: do not overflow when the stored type of an entry
 is out of range

---
 sources/files.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/files.h b/sources/files.h
index 268693d..63d9b31 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -124,7 +124,10 @@ public:
         return EINVAL;
     }
 
-    static fuse_mode_t mode_for_type(int type) noexcept { return type << 12; }
+    static fuse_mode_t mode_for_type(int type) noexcept
+    {
+        return static_cast<uint32_t>(type) << 12;
+    }
 
     static int type_for_mode(fuse_mode_t mode) noexcept { return mode >> 12; }
 
-- 
2.43.0


From 63c927f1e42d59cff0428d25a5050ab87a4ad808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 29/59] fix: refuse block, IV and padding sizes the streams
 cannot work with

---
 sources/commands.cpp       |  1 +
 sources/internal_mount.cpp |  5 +++++
 sources/params_io.cpp      | 19 +++++++++++++++++++
 sources/params_io.h        |  3 +++
 4 files changed, 28 insertions(+)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 667b4bc..7d70fbf 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -370,6 +370,7 @@ public:
         {
             throw_runtime_error("--format lite/full must be specified");
         }
+        validate_size_params(params);
 
         auto encrypted_data
             = encrypt(params,
diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index 0d023fe..7801dd5 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -8,6 +8,7 @@
 #include "fuse_hook.h"
 #include "lite_format.h"
 #include "logger.h"
+#include "params_io.h"
 #include "platform.h"
 #include "tags.h"
 
@@ -50,6 +51,8 @@ namespace
                                                             const DecryptedSecurefsParams& params,
                                                             const MountOptions& mount_options)
     {
+        validate_size_params(params);
+
         auto master_key = StrongType<key_type, tMasterKey>(
             from_byte_string(params.full_format_params().master_key()));
         auto verify = StrongType<bool, tVerify>(!mount_options.disable_verification());
@@ -213,6 +216,8 @@ make_lite_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
                                      const DecryptedSecurefsParams& params,
                                      const MountOptions& mount_options)
 {
+    validate_size_params(params);
+
     // Extract keys from params
 
     const auto& lite_params = params.lite_format_params();
diff --git a/sources/params_io.cpp b/sources/params_io.cpp
index 6bc6fcd..66cd482 100644
--- a/sources/params_io.cpp
+++ b/sources/params_io.cpp
@@ -178,6 +178,25 @@ namespace
         return key;
     }
 }    // namespace
+void validate_size_params(const DecryptedSecurefsParams& params)
+{
+    constexpr uint32_t kMaxSize = 64 << 20;
+    const auto& sizes = params.size_params();
+    bool is_lite = params.has_lite_format_params();
+    if (sizes.block_size() < (is_lite ? 32 : 1) || sizes.block_size() > kMaxSize)
+    {
+        throw_runtime_error(absl::StrFormat("Invalid block size %u", sizes.block_size()));
+    }
+    if (sizes.iv_size() < (is_lite ? 12 : 1) || sizes.iv_size() > (is_lite ? 32 : 4096))
+    {
+        throw_runtime_error(absl::StrFormat("Invalid IV size %u", sizes.iv_size()));
+    }
+    if (sizes.max_padding_size() > kMaxSize)
+    {
+        throw_runtime_error(
+            absl::StrFormat("Invalid max padding size %u", sizes.max_padding_size()));
+    }
+}
 DecryptedSecurefsParams decrypt(const LegacySecurefsJsonParams& legacy,
                                 absl::Span<const byte> password,
                                 /* nullable */ StreamBase* key_stream)
diff --git a/sources/params_io.h b/sources/params_io.h
index a3be4b5..138197c 100644
--- a/sources/params_io.h
+++ b/sources/params_io.h
@@ -18,6 +18,9 @@ class PasswordOrKeyfileIncorrectException : public std::exception
 public:
     const char* what() const noexcept override { return "Password/keyfile is incorrect"; }
 };
+// Throws when the sizes are beyond what the streams can work with.
+// Note that the sizes in a legacy config are not authenticated.
+void validate_size_params(const DecryptedSecurefsParams& params);
 DecryptedSecurefsParams decrypt(const LegacySecurefsJsonParams& legacy,
                                 absl::Span<const byte> password,
                                 /* nullable */ StreamBase* key_stream);
-- 
2.43.0


From a954dac019becd143b5635c2c8897f95d51eec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 30/59] fix: do not run views and triggers inside the table of
 long names

---
 sources/sqlite_helper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/sqlite_helper.cpp b/sources/sqlite_helper.cpp
index 3445a58..6558f4c 100644
--- a/sources/sqlite_helper.cpp
+++ b/sources/sqlite_helper.cpp
@@ -55,6 +55,11 @@ SQLiteDB::SQLiteDB(const char* filename, int flags, const char* vfs)
     ptr_ = std::make_shared<SQLiteDBWrapper>();
     int rc = sqlite3_open_v2(filename, &ptr_->db, flags, vfs);
     check_sqlite_call(ptr_->db, rc);
+    // The file may be tampered with, so do not run the views and triggers it may contain.
+    check_sqlite_call(ptr_->db,
+                      sqlite3_db_config(ptr_->db, SQLITE_DBCONFIG_ENABLE_VIEW, 0, nullptr));
+    check_sqlite_call(ptr_->db,
+                      sqlite3_db_config(ptr_->db, SQLITE_DBCONFIG_ENABLE_TRIGGER, 0, nullptr));
 }
 
 void SQLiteDB::set_timeout(int ms) { check_sqlite_call(get(), sqlite3_busy_timeout(get(), ms)); }
-- 
2.43.0


From fc0a16d1dd16a227c0c73851a592616b118363b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 31/59] fix: detect senseless pages of a directory instead of
 relying on them

---
 sources/btree_dir.cpp | 90 ++++++++++++++++++++++++++-----------------
 sources/btree_dir.h   |  4 +-
 2 files changed, 56 insertions(+), 38 deletions(-)

diff --git a/sources/btree_dir.cpp b/sources/btree_dir.cpp
index 5994c14..840001c 100644
--- a/sources/btree_dir.cpp
+++ b/sources/btree_dir.cpp
@@ -22,6 +22,8 @@ static void dir_check(bool condition)
 namespace securefs
 {
 
+static offset_type page_offset(uint32_t num) { return static_cast<offset_type>(num) * BLOCK_SIZE; }
+
 class NotBTreeNodeException : public CorruptedDirectoryException
 {
 public:
@@ -135,7 +137,7 @@ public:
 void BtreeDirectory::read_free_page(uint32_t num, FreePage& fp)
 {
     byte buffer[BLOCK_SIZE];
-    dir_check(m_stream->read(buffer, num * BLOCK_SIZE, BLOCK_SIZE) == BLOCK_SIZE);
+    dir_check(m_stream->read(buffer, page_offset(num), BLOCK_SIZE) == BLOCK_SIZE);
     if (from_little_endian<uint32_t>(buffer) != 0)
     {
         throw CorruptedDirectoryException();
@@ -149,7 +151,7 @@ void BtreeDirectory::write_free_page(uint32_t num, const FreePage& fp)
     byte buffer[BLOCK_SIZE] = {};
     to_little_endian(fp.next, buffer + sizeof(uint32_t));
     to_little_endian(fp.prev, buffer + sizeof(uint32_t) * 2);
-    m_stream->write(buffer, BLOCK_SIZE * num, BLOCK_SIZE);
+    m_stream->write(buffer, page_offset(num), BLOCK_SIZE);
 }
 
 uint32_t BtreeDirectory::allocate_page()
@@ -176,9 +178,9 @@ uint32_t BtreeDirectory::allocate_page()
 
 void BtreeDirectory::deallocate_page(uint32_t num)
 {
-    if (num * BLOCK_SIZE == this->m_stream->size())
+    if (page_offset(num) == this->m_stream->size())
     {
-        this->m_stream->resize((num - 1) * BLOCK_SIZE);
+        this->m_stream->resize(page_offset(num) - BLOCK_SIZE);
         return;    // Special case where the stream can be shrinked
     }
 
@@ -226,6 +228,16 @@ bool BtreeNode::from_buffer(const byte* buffer, size_t size)
         e.filename = filename.data();
         m_entries.push_back(std::move(e));
     }
+
+    dir_check(m_entries.size() <= BTREE_MAX_NUM_ENTRIES);
+    if (!m_child_indices.empty())
+    {
+        dir_check(!m_entries.empty() && m_child_indices.size() == m_entries.size() + 1);
+        auto sorted_indices = m_child_indices;
+        std::sort(sorted_indices.begin(), sorted_indices.end());
+        dir_check(std::adjacent_find(sorted_indices.begin(), sorted_indices.end())
+                  == sorted_indices.end());
+    }
     return true;
 }
 
@@ -327,12 +339,23 @@ BtreeDirectory::Node* BtreeDirectory::retrieve_node(uint32_t parent_num, uint32_
         return n;
     }
     auto n = make_unique<Node>(parent_num, num);
-    read_node(num, *n);
+    bool is_node = read_node(num, *n);
+    // Only the root may be without any entries.
+    dir_check(parent_num == INVALID_PAGE || (is_node && !n->entries().empty()));
     auto result = n.get();
     m_node_cache.emplace(num, std::move(n));
     return result;
 }
 
+BtreeDirectory::Node* BtreeDirectory::create_node(uint32_t parent_num)
+{
+    auto num = allocate_page();
+    // If the page that should be free is in use, then the free list is wrong.
+    auto inserted = m_node_cache.emplace(num, make_unique<Node>(parent_num, num));
+    dir_check(inserted.second);
+    return inserted.first->second.get();
+}
+
 void BtreeDirectory::subflush()
 {
     if (get_num_free_page() > 5
@@ -398,7 +421,7 @@ bool BtreeDirectory::read_node(uint32_t num, BtreeDirectory::Node& n)
     if (num == INVALID_PAGE)
         throw CorruptedDirectoryException();
     byte buffer[BLOCK_SIZE];
-    dir_check(m_stream->read(buffer, num * BLOCK_SIZE, BLOCK_SIZE) == BLOCK_SIZE);
+    dir_check(m_stream->read(buffer, page_offset(num), BLOCK_SIZE) == BLOCK_SIZE);
     return n.from_buffer(buffer, array_length(buffer));
 }
 
@@ -408,7 +431,7 @@ void BtreeDirectory::write_node(uint32_t num, const BtreeDirectory::Node& n)
         throw CorruptedDirectoryException();
     byte buffer[BLOCK_SIZE];
     n.to_buffer(buffer, array_length(buffer));
-    m_stream->write(buffer, num * BLOCK_SIZE, BLOCK_SIZE);
+    m_stream->write(buffer, page_offset(num), BLOCK_SIZE);
 }
 
 bool BtreeDirectory::add_entry_impl(std::string_view name, const id_type& id, int type)
@@ -427,8 +450,8 @@ bool BtreeDirectory::add_entry_impl(std::string_view name, const id_type& id, in
 
     if (!node)
     {
-        set_root_page(allocate_page());
-        node = get_root_node();
+        node = create_node(INVALID_PAGE);
+        set_root_page(node->page_number());
         node->mutable_entries().emplace_back(
             Entry{std::string(name), id, static_cast<uint32_t>(type)});
         return true;
@@ -460,7 +483,7 @@ void BtreeDirectory::insert_and_balance(BtreeNode* n, Entry e, uint32_t addition
 
     if (n->entries().size() > BTREE_MAX_NUM_ENTRIES)
     {
-        Node* sibling = retrieve_node(n->parent_page_number(), allocate_page());
+        Node* sibling = create_node(n->parent_page_number());
         auto middle_index = n->entries().size() / 2 - 1;
         e = std::move(n->mutable_entries()[middle_index]);
         if (!n->is_leaf())
@@ -472,8 +495,8 @@ void BtreeDirectory::insert_and_balance(BtreeNode* n, Entry e, uint32_t addition
         n->mutable_entries().pop_back();
         if (n->parent_page_number() == INVALID_PAGE)
         {
-            auto new_root_page = allocate_page();
-            Node* root = retrieve_node(INVALID_PAGE, new_root_page);
+            Node* root = create_node(INVALID_PAGE);
+            auto new_root_page = root->page_number();
             root->mutable_children().push_back(n->page_number());
             root->mutable_children().push_back(sibling->page_number());
             root->mutable_entries().push_back(std::move(e));
@@ -483,10 +506,9 @@ void BtreeDirectory::insert_and_balance(BtreeNode* n, Entry e, uint32_t addition
         }
         else
         {
-            insert_and_balance(retrieve_existing_node(n->parent_page_number()),
-                               std::move(e),
-                               sibling->page_number(),
-                               depth + 1);
+            Node* parent = retrieve_existing_node(n->parent_page_number());
+            dir_check(parent != nullptr);
+            insert_and_balance(parent, std::move(e), sibling->page_number(), depth + 1);
         }
     }
 }
@@ -503,7 +525,11 @@ BtreeNode* BtreeDirectory::replace_with_sub_entry(BtreeNode* n, ptrdiff_t index,
     {
         Node* lchild = retrieve_node(n->page_number(), n->children().at(index));
         while (!lchild->is_leaf())
+        {
+            dir_check(++depth < BTREE_MAX_DEPTH);
             lchild = retrieve_node(lchild->page_number(), lchild->children().back());
+        }
+        dir_check(!lchild->entries().empty());
         n->mutable_entries().at(index) = std::move(lchild->mutable_entries().back());
         lchild->mutable_entries().pop_back();
         return lchild;
@@ -525,14 +551,13 @@ std::pair<ptrdiff_t, BtreeNode*> BtreeDirectory::find_sibling(const BtreeNode* p
     const auto& child_indices = parent->children();
     auto iter = std::find(child_indices.begin(), child_indices.end(), node->page_number());
     auto index = iter - child_indices.begin();
-    dir_check(iter != child_indices.end());
-
-    if (iter + 1 == child_indices.end())
-        return std::make_pair(
-            index - 1, retrieve_node(parent->page_number(), parent->children().at(index - 1)));
+    dir_check(iter != child_indices.end() && child_indices.size() > 1);
 
-    return std::make_pair(index,
-                          retrieve_node(parent->page_number(), parent->children().at(index + 1)));
+    bool is_last = iter + 1 == child_indices.end();
+    auto sibling = retrieve_node(parent->page_number(),
+                                 child_indices[is_last ? index - 1 : index + 1]);
+    dir_check(node != parent && sibling != parent && sibling != node);
+    return std::make_pair(is_last ? index - 1 : index, sibling);
 }
 
 void BtreeDirectory::rotate(BtreeNode* left, BtreeNode* right, Entry& separator)
@@ -605,6 +630,7 @@ void BtreeDirectory::balance_up(BtreeNode* n, int depth)
     ptrdiff_t entry_index;
     BtreeNode* sibling;
     std::tie(entry_index, sibling) = find_sibling(parent, n);
+    dir_check(!n->entries().empty() && !sibling->entries().empty());
 
     if (n->entries().size() + sibling->entries().size() < BTREE_MAX_NUM_ENTRIES)
     {
@@ -728,16 +754,6 @@ void BtreeDirectory::recursive_iterate(const BtreeNode* n, const Callback& cb, i
         recursive_iterate(retrieve_node(n->page_number(), c), cb, depth + 1);
 }
 
-template <class Callback>
-void BtreeDirectory::mutable_recursive_iterate(BtreeNode* n, const Callback& cb, int depth)
-{
-    dir_check(depth < BTREE_MAX_DEPTH);
-    for (Entry& e : n->mutable_entries())
-        cb(std::move(e));
-    for (uint32_t c : n->children())
-        mutable_recursive_iterate(retrieve_node(n->page_number(), c), cb, depth + 1);
-}
-
 void BtreeDirectory::iterate_over_entries_impl(const BtreeDirectory::callback& cb)
 {
     auto root = get_root_node();
@@ -752,8 +768,12 @@ void BtreeDirectory::rebuild()
         return;
 
     std::vector<DirEntry> entries;
-    entries.reserve(this->m_stream->size() / BLOCK_SIZE * BTREE_MAX_NUM_ENTRIES);
-    mutable_recursive_iterate(root, [&](DirEntry&& e) { entries.push_back(std::move(e)); }, 0);
+    // The nodes must stay intact in case the iteration fails.
+    recursive_iterate(
+        root,
+        [&](const std::string& name, const id_type& id, int type)
+        { entries.push_back(DirEntry{name, id, static_cast<uint32_t>(type)}); },
+        0);
     clear_cache();    // root is invalid after this line
     m_stream->resize(0);
     set_num_free_page(0);
diff --git a/sources/btree_dir.h b/sources/btree_dir.h
index 5068b2e..39c5a66 100644
--- a/sources/btree_dir.h
+++ b/sources/btree_dir.h
@@ -127,6 +127,7 @@ private:
     uint32_t allocate_page() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
     Node* retrieve_node(uint32_t parent_num, uint32_t num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    Node* create_node(uint32_t parent_num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     Node* retrieve_existing_node(uint32_t num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     void del_node(Node*) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     Node* get_root_node() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
@@ -160,9 +161,6 @@ private:
     template <class Callback>
     void recursive_iterate(const Node* n, const Callback& cb, int depth)
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-    template <class Callback>
-    void mutable_recursive_iterate(Node* n, const Callback& cb, int depth)
-        ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
 protected:
     void subflush() override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-- 
2.43.0


From 097d491789f3a77ebd30ec35c1a9bba2063560fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 32/59] fix: refuse oversized link targets before allocating
 memory for them

---
 sources/files.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/files.h b/sources/files.h
index 63d9b31..2d775bf 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -407,6 +407,9 @@ public:
 class Symlink : public FileBase
 {
 public:
+    // More than any operating system lets one create; only a damaged link is longer.
+    static constexpr length_type MAX_TARGET_LENGTH = 65536;
+
     constexpr static int class_type() { return FileBase::SYMLINK; }
 
     using FileBase::FileBase;
@@ -415,6 +418,10 @@ public:
 
     std::string get() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
     {
+        if (m_stream->size() > MAX_TARGET_LENGTH)
+        {
+            throwVFSException(ENAMETOOLONG);
+        }
         // Ask for more than there should be, so that the end of the target is verified too.
         std::string result(m_stream->size() + 1, 0);
         auto rc = m_stream->read(&result[0], 0, result.size());
-- 
2.43.0


From a9fa12687364ee497a06a63b771ed118a264af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:18 +0000
Subject: [PATCH 33/59] fix: leave no incomplete config behind when create
 fails

---
 sources/commands.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 7d70fbf..f017b4f 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -378,12 +378,15 @@ public:
                       {single_pass_holder_.password.data(), single_pass_holder_.password.size()},
                       maybe_open_key_stream(single_pass_holder_.keyfile.getValue()).get())
                   .SerializeAsString();
+        auto config_path = single_pass_holder_.config_path.getValue().empty()
+            ? absl::StrCat(single_pass_holder_.data_dir.getValue(), "/", kConfigFileName)
+            : single_pass_holder_.config_path.getValue();
         auto config_stream = OSService::get_default().open_file_stream(
-            single_pass_holder_.config_path.getValue().empty()
-                ? absl::StrCat(single_pass_holder_.data_dir.getValue(), "/", kConfigFileName)
-                : single_pass_holder_.config_path.getValue(),
-            O_WRONLY | O_EXCL | O_CREAT,
-            0644);
+            config_path, O_WRONLY | O_EXCL | O_CREAT, 0644);
+        DEFER(if (has_uncaught_exceptions()) {
+            config_stream.reset();
+            OSService::get_default().remove_file_nothrow(config_path);
+        });
         config_stream->write(encrypted_data.data(), 0, encrypted_data.size());
         return 0;
     }
-- 
2.43.0


From 963ab001b370df12c1291a3baa8d1420885a1474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:18 +0000
Subject: [PATCH 34/59] fix: do not create a repository over one of an earlier
 version

---
 sources/commands.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index f017b4f..8622b82 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -305,6 +305,16 @@ public:
     int execute() override
     {
         OSService::get_default().ensure_directory(single_pass_holder_.data_dir.getValue(), 0755);
+        if (single_pass_holder_.config_path.getValue().empty())
+        {
+            fuse_stat st{};
+            if (OSService(single_pass_holder_.data_dir.getValue())
+                    .stat(std::string(kLegacyConfigFileName), &st))
+            {
+                throw_runtime_error(
+                    "The directory already holds a repository created by an earlier version");
+            }
+        }
 
         DecryptedSecurefsParams params;
         params.mutable_size_params()->set_iv_size(iv_size.getValue());
-- 
2.43.0


From 84dedefc6342a336966d9f23637e13bc8420395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 35/59] fix: let an interrupted change of the long-name suffix
 be repeated, report failed commits of the table

---
 sources/commands.cpp                    |  4 ++-
 sources/lite_format.cpp                 | 40 ++++++++++++++++---------
 sources/lite_long_name_lookup_table.cpp |  6 ++++
 sources/lite_long_name_lookup_table.h   | 11 ++++++-
 4 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 8622b82..3905b02 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -1197,7 +1197,9 @@ public:
                       {single_pass_holder_.password.data(), single_pass_holder_.password.size()},
                       maybe_open_key_stream(single_pass_holder_.keyfile.getValue()).get())
                   .SerializeAsString();
-        auto tmp_path = absl::StrCat(real_config_path, ".tmp");
+        byte buffer[16];
+        generate_random(buffer, array_length(buffer));
+        auto tmp_path = absl::StrCat(real_config_path, hexify(buffer, array_length(buffer)));
         auto stream = OSService::get_default().open_file_stream(
             tmp_path, O_WRONLY | O_CREAT | O_EXCL, 0644);
         DEFER(if (has_uncaught_exceptions()) {
diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 5a5e4f7..3cd6c14 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1066,6 +1066,7 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
                                       encrypted_last_component_to);
     }
     rename_encrypted(enc_from, enc_to);
+    table.commit();
     return 0;
 }
 int FuseHighLevelOps::vfsync(const char* path,
@@ -1303,6 +1304,7 @@ void FuseHighLevelOps::process_possible_long_name(
         throw_runtime_error("Unspecified action");
     }
     callback(std::move(enc_path));
+    table.commit();
 }
 
 std::shared_ptr<NameTranslator>
@@ -1375,16 +1377,6 @@ void change_long_name_suffix(const std::string& data_dir,
     {
         throwInvalidArgumentException("new_long_name_suffix cannot be empty");
     }
-    std::string_view old_suffix = mutable_params.lite_format_params().long_name_suffix();
-    if (old_suffix.empty())
-    {
-        old_suffix = NewStyleNameTranslator::kLegacyLongNameSuffix;
-    }
-    if (old_suffix == new_long_name_suffix)
-    {
-        return;
-    }
-
     validate_long_name_suffix(new_long_name_suffix);
 
     OSService root(data_dir);
@@ -1415,17 +1407,37 @@ void change_long_name_suffix(const std::string& data_dir,
         auto hashes = table.list_hashes();
         for (const auto& hash : hashes)
         {
-            if (!absl::EndsWith(hash, old_suffix))
+            // Whatever follows the hash is a suffix: an interrupted change leaves several of them.
+            constexpr size_t kEncodedHashSize
+                = ((NewStyleNameTranslator::kHashSize + NewStyleNameTranslator::kSIVSize) * 8 + 4) / 5;
+            if (hash.size() <= kEncodedHashSize)
+            {
+                continue;
+            }
+            auto new_hash = absl::StrCat(hash.substr(0, kEncodedHashSize), new_long_name_suffix);
+            if (hash == new_hash)
             {
                 continue;
             }
-            auto new_hash = absl::StrCat(hash.substr(0, hash.size() - old_suffix.size()),
-                                         new_long_name_suffix);
             auto old_value = table.lookup(hash);
             table.update_mapping(new_hash, old_value);
             table.remove_mapping(hash);
-            root.rename(absl::StrCat(dir, "/", hash), absl::StrCat(dir, "/", new_hash));
+
+            auto old_path = absl::StrCat(dir, "/", hash), new_path = absl::StrCat(dir, "/", new_hash);
+            fuse_stat st{};
+            if (!root.stat(old_path, &st))
+            {
+                // Already renamed or removed before an interruption.
+                continue;
+            }
+            if (root.stat(new_path, &st))
+            {
+                throw_runtime_error(absl::StrFormat(
+                    "Both %s and %s exist", old_path, new_path));
+            }
+            root.rename(old_path, new_path);
         }
+        table.commit();
     }
 
     mutable_params.mutable_lite_format_params()->set_long_name_suffix(new_long_name_suffix);
diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index 119eb44..da5fd3f 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -98,6 +98,12 @@ void LongNameLookupTable::remove_mapping(std::string_view keyed_hash)
 
 void internal::LookupTableBase::begin() { db_.exec("begin;"); }
 
+void internal::LookupTableBase::commit()
+{
+    db_.exec("commit;");
+    committed_ = true;
+}
+
 void internal::LookupTableBase::finish() noexcept
 {
     try
diff --git a/sources/lite_long_name_lookup_table.h b/sources/lite_long_name_lookup_table.h
index 22be010..cc948c5 100644
--- a/sources/lite_long_name_lookup_table.h
+++ b/sources/lite_long_name_lookup_table.h
@@ -21,16 +21,25 @@ namespace internal
         {
             db_.mutex().Lock();
             begin();
+            committed_ = false;
         }
 
+        /// Makes the changes since `lock` permanent. Without it, `unlock` does so, but cannot report
+        /// a failure.
+        void commit() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+
         void unlock() ABSL_UNLOCK_FUNCTION(*this) ABSL_NO_THREAD_SAFETY_ANALYSIS
         {
-            finish();
+            if (!committed_)
+            {
+                finish();
+            }
             db_.mutex().Unlock();
         }
 
     protected:
         SQLiteDB db_ ABSL_GUARDED_BY(*this);
+        bool committed_ ABSL_GUARDED_BY(*this) = false;
 
     protected:
         void begin() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-- 
2.43.0


From 2d8f17d2b3ba7740f11ebdd2705c0841e29f0c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 36/59] fix: let --use-ino auto turn on inode numbers for the
 full format

---
 sources/commands.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 3905b02..fed01f9 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -664,7 +664,6 @@ private:
         0,
         "int64",
         cmdline()};
-    DecryptedSecurefsParams fsparams{};
 
 private:
     std::string executable_name_;
@@ -682,7 +681,7 @@ private:
     }
 #endif
 
-    bool should_use_ino()
+    bool should_use_ino(const DecryptedSecurefsParams& fsparams)
     {
         if (use_ino.getValue() == "true")
         {
@@ -859,7 +858,7 @@ private:
         // Handling `daemon` ourselves, as FUSE's version interferes with our initialization.
         fuse_args.emplace_back("-f");
 
-        if (should_use_ino())
+        if (should_use_ino(internal_mount_data.decrypted_params()))
         {
             fuse_args.emplace_back("-o");
             fuse_args.emplace_back("use_ino");
-- 
2.43.0


From 70766454082c3d53e6f81b80527c4b7f525b293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 37/59] fix: refuse an unknown value of --normalization

---
 sources/commands.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index fed01f9..33ee8d9 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -807,6 +807,13 @@ private:
             }
             mount_options->set_enable_xattr(enable_xattr);
             // case_fold and unicode_normalize_nfc from normalization arg
+            if (normalization.getValue() != "none" && normalization.getValue() != "casefold"
+                && normalization.getValue() != "nfc"
+                && normalization.getValue() != "casefold+nfc")
+            {
+                throw_runtime_error(
+                    "Invalid --normalization. Must be none/casefold/nfc/casefold+nfc.");
+            }
             if (plain_text_names.getValue())
             {
                 mount_options->set_plain_text_names(true);
-- 
2.43.0


From 4bbbfa2f83b9a3c1d13d38dc7e6101de9b686e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:41 +0000
Subject: [PATCH 38/59] fix: let --noflock reach a mount in the background

---
 protos/params.proto        | 2 ++
 sources/commands.cpp       | 1 +
 sources/internal_mount.cpp | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/protos/params.proto b/protos/params.proto
index 2415490..b179cdc 100644
--- a/protos/params.proto
+++ b/protos/params.proto
@@ -123,4 +123,6 @@ message InternalMountData
 
     // Only present if mounting continues in a child process.
     BackgroundLogging background_logging = 5;
+
+    bool disable_file_locking = 6;
 }
diff --git a/sources/commands.cpp b/sources/commands.cpp
index 33ee8d9..f8103bc 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -830,6 +830,7 @@ private:
             mount_options->set_allow_sensitive_logging(allow_sensitive_logging.getValue());
             mount_options->set_max_idle_seconds(max_idle_seconds.getValue());
         }
+        internal_mount_data.set_disable_file_locking(noflock.getValue());
 
         std::vector<std::string> fuse_args{
             executable_name_,
diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index 7801dd5..987ce4c 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -7,6 +7,7 @@
 #include "fuse_high_level_ops_base.h"
 #include "fuse_hook.h"
 #include "lite_format.h"
+#include "lock_enabled.h"
 #include "logger.h"
 #include "params_io.h"
 #include "platform.h"
@@ -287,6 +288,7 @@ make_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
 }
 int internal_mount(const InternalMountData& mount_data)
 {
+    set_lock_enabled(!mount_data.disable_file_locking());
     if (mount_data.has_background_logging())
     {
         global_logger.reset();
-- 
2.43.0


From 7bc88c7959be1ce91b394d82b5bf88f0b9790532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:08 +0000
Subject: [PATCH 39/59] fix: hold the lock of a repository until its last
 write, and take it before the first

---
 sources/full_format.h      | 7 ++++---
 sources/internal_mount.cpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/full_format.h b/sources/full_format.h
index 4a67361..e6c853c 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -60,8 +60,8 @@ public:
                      StrongType<bool, tCaseInsensitive> case_insensitive,
                      StrongType<bool, tEnableXattr> enable_xattr)
         : root_(std::move(root))
-        , ft_(std::move(ft))
         , locker_(std::move(locker))
+        , ft_(std::move(ft))
         , owner_override_(owner_override)
         , case_insensitive_(case_insensitive.get())
         , enable_xattr_(enable_xattr.get())
@@ -148,9 +148,10 @@ public:
 
 private:
     std::shared_ptr<OSService> root_;
+    // We only needs this to construct and destruct. It must outlive the file table, whose destructor
+    // still writes to the repository.
+    [[maybe_unused]] std::shared_ptr<RepoLocker> locker_;
     std::shared_ptr<FileTable> ft_;
-    [[maybe_unused]] std::shared_ptr<RepoLocker>
-        locker_;    // We only needs this to construct and destruct.
     OwnerOverride owner_override_;
     bool case_insensitive_;
     bool enable_xattr_;
diff --git a/sources/internal_mount.cpp b/sources/internal_mount.cpp
index 987ce4c..43abd63 100644
--- a/sources/internal_mount.cpp
+++ b/sources/internal_mount.cpp
@@ -201,9 +201,9 @@ make_full_format_fuse_high_level_ops(std::shared_ptr<OSService> os_service,
                                      const DecryptedSecurefsParams& params,
                                      const MountOptions& mount_options)
 {
-    auto file_table = make_file_table(os_service, params, mount_options);
     auto locker = std::make_shared<full_format::RepoLocker>(
         os_service, StrongType<bool, tReadOnly>(mount_options.read_only()));
+    auto file_table = make_file_table(os_service, params, mount_options);
     return std::make_shared<full_format::FuseHighLevelOps>(
         std::move(os_service),
         std::move(file_table),
-- 
2.43.0


From f88f5225a35040a17be85dba8e57afc44784ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 40/59] fix: let only one of several mounts at the same time
 get the lock of a repository

---
 sources/full_format.cpp | 45 +++++++++++++++++++++--------------------
 sources/full_format.h   |  1 -
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index eaab3cf..4106cf4 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -700,42 +700,43 @@ void FuseHighLevelOps::postprocess_stat(fuse_stat* st)
 
 void RepoLocker::check_lock_file()
 {
-    lock_stream_ = open_lock_stream_checked();
-    auto pid = absl::StrCat(OSService::get_current_process_id());
-    lock_stream_->resize(0);
-    lock_stream_->write(pid.data(), 0, pid.size());
-}
-
-std::shared_ptr<FileStream> RepoLocker::open_lock_stream_checked()
-{
-    try
+    while (true)
     {
-        return root_->open_file_stream(kLockFileName, O_RDWR | O_CREAT | O_EXCL, 0644);
-    }
-    catch (const ExceptionBase& e)
-    {
-        if (e.error_number() != EEXIST)
-        {
-            throw;
-        }
+        auto stream = root_->open_file_stream(kLockFileName, O_RDWR | O_CREAT, 0644);
+        // Others may be checking at the same time, so only one of them at once may look at the
+        // content and change it.
+        stream->lock(true);
+        DEFER(stream->unlock());
 
-        auto result = root_->open_file_stream(kLockFileName, O_RDWR, 0644);
+        auto content = stream->as_string();
         pid_t pid{};
-        if (absl::SimpleAtoi(result->as_string(), &pid) && OSService::is_process_running(pid))
+        if (absl::SimpleAtoi(content, &pid) && OSService::is_process_running(pid))
         {
             ERROR_LOG("Failed to acquire lock file %s. Process %d is holding "
                       "the lock.",
                       root_->norm_path_narrowed(kLockFileName),
                       pid);
-            throw;
+            throwVFSException(EEXIST);
+        }
+
+        fuse_stat opened{}, current{};
+        stream->fstat(&opened);
+        if (!root_->stat(kLockFileName, &current) || opened.st_ino != current.st_ino)
+        {
+            // The previous holder has removed the file after we opened it.
+            continue;
         }
-        else
+        if (!content.empty())
         {
             WARN_LOG("Lock file %s exists but the process holding it has exited. The previous "
                      "securefs probably exited abnormally.",
                      root_->norm_path_narrowed(kLockFileName));
-            return result;
         }
+        auto own_pid = absl::StrCat(OSService::get_current_process_id());
+        stream->resize(0);
+        stream->write(own_pid.data(), 0, own_pid.size());
+        lock_stream_ = stream;
+        return;
     }
 }
 
diff --git a/sources/full_format.h b/sources/full_format.h
index e6c853c..f78045d 100644
--- a/sources/full_format.h
+++ b/sources/full_format.h
@@ -45,7 +45,6 @@ private:
     DISABLE_COPY_MOVE(RepoLocker)
 
     void check_lock_file();
-    std::shared_ptr<FileStream> open_lock_stream_checked();
 
     std::shared_ptr<OSService> root_;
     std::shared_ptr<FileStream> lock_stream_;
-- 
2.43.0


From 9be2631ff9b30ad64a6c213efcd75871b4fe8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:34 +0000
Subject: [PATCH 41/59] fix: write the header of a new root directory when it
 is created

---
 sources/file_table_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 247f6bd..656d0da 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -36,6 +36,8 @@ void FileTable::init()
     {
         LockGuard<FileBase> lg(*root_);
         root_->initialize_empty(0755 | S_IFDIR, OSService::getuid(), OSService::getgid());
+        // Its files are there already, and without a header they could not be opened again.
+        root_->flush();
     }
 }
 FilePtrHolder FileTable::create_holder(FileBase* fb)
-- 
2.43.0


From 776d905d3abae103bbb70bd46618a226c67c8a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 42/59] fix: leave nothing of a new root directory behind when
 it cannot be created

---
 sources/file_table_v2.cpp | 48 +++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 656d0da..933db93 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -31,13 +31,24 @@ void FileTable::init()
         pair = io_->create(kRootId);
         newly = true;
     }
-    root_ = directory_factory_(pair.first, pair.second, kRootId);
-    if (newly)
+    try
     {
-        LockGuard<FileBase> lg(*root_);
-        root_->initialize_empty(0755 | S_IFDIR, OSService::getuid(), OSService::getgid());
-        // Its files are there already, and without a header they could not be opened again.
-        root_->flush();
+        root_ = directory_factory_(pair.first, pair.second, kRootId);
+        if (newly)
+        {
+            LockGuard<FileBase> lg(*root_);
+            root_->initialize_empty(0755 | S_IFDIR, OSService::getuid(), OSService::getgid());
+            // Its files are there already, and without a header they could not be opened again.
+            root_->flush();
+        }
+    }
+    catch (...)
+    {
+        if (newly)
+        {
+            io_->unlink(kRootId);
+        }
+        throw;
     }
 }
 FilePtrHolder FileTable::create_holder(FileBase* fb)
@@ -230,6 +241,23 @@ FileTable::~FileTable()
 
 namespace
 {
+    // Creates both files or none.
+    FileStreamPtrPair
+    create_files(const OSService& root, const std::string& filename, const std::string& metaname)
+    {
+        int open_flags = O_RDWR | O_CREAT | O_EXCL;
+        auto data = root.open_file_stream(filename, open_flags, 0644);
+        try
+        {
+            return std::make_pair(data, root.open_file_stream(metaname, open_flags, 0644));
+        }
+        catch (...)
+        {
+            root.remove_file_nothrow(filename);
+            throw;
+        }
+    }
+
     class FileTableIOVersion1 : public FileTableIO
     {
     private:
@@ -276,9 +304,7 @@ namespace
             calculate_paths(id, first_level_dir, second_level_dir, filename, metaname);
             m_root->ensure_directory(first_level_dir, 0755);
             m_root->ensure_directory(second_level_dir, 0755);
-            int open_flags = O_RDWR | O_CREAT | O_EXCL;
-            return std::make_pair(m_root->open_file_stream(filename, open_flags, 0644),
-                                  m_root->open_file_stream(metaname, open_flags, 0644));
+            return create_files(*m_root, filename, metaname);
         }
 
         void unlink(const id_type& id) noexcept override
@@ -329,9 +355,7 @@ namespace
             std::string dir, filename, metaname;
             calculate_paths(id, dir, filename, metaname);
             m_root->ensure_directory(dir, 0755);
-            int open_flags = O_RDWR | O_CREAT | O_EXCL;
-            return std::make_pair(m_root->open_file_stream(filename, open_flags, 0644),
-                                  m_root->open_file_stream(metaname, open_flags, 0644));
+            return create_files(*m_root, filename, metaname);
         }
 
         void unlink(const id_type& id) noexcept override
-- 
2.43.0


From 6c8d6c9e9d1de56d974238c00548512614c05605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 43/59] fix: record the new long name before the renaming, so
 that a crash does not hide the file

---
 sources/lite_format.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 3cd6c14..3cb1bd2 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1054,6 +1054,15 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
 
     DoubleLongNameLookupTable table(long_name_table_file_name(enc_from),
                                     long_name_table_file_name(enc_to));
+    if (!encrypted_last_component_to.empty())
+    {
+        // The new name must be on disk before anything bears it. Otherwise it would be missing from
+        // the listings after a crash between the renaming and the commit below.
+        LockGuard<decltype(table)> lg(table);
+        table.update_mapping_to_to_db(name_trans_->get_last_component(enc_to),
+                                      encrypted_last_component_to);
+        table.commit();
+    }
     LockGuard<decltype(table)> lg(table);
 
     if (!encrypted_last_component_from.empty())
-- 
2.43.0


From e4af1cf04299b40ae594f04c273253982b10573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 44/59] fix: let the listing of a directory undo the
 transaction that a dead process left in its long name table

---
 sources/lite_long_name_lookup_table.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index da5fd3f..cc5381d 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -39,11 +39,12 @@ namespace
 }    // namespace
 LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool readonly)
 {
-    db_ = SQLiteDB(
-        filename.c_str(),
-        SQLITE_OPEN_NOMUTEX
-            | (readonly ? SQLITE_OPEN_READONLY : (SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE)),
-        nullptr);
+    // Even a reader needs to write when it has to undo a transaction that a dead process left behind.
+    // SQLite falls back to reading only if the file is write protected.
+    db_ = SQLiteDB(filename.c_str(),
+                   SQLITE_OPEN_NOMUTEX | SQLITE_OPEN_READWRITE
+                       | (readonly ? 0 : SQLITE_OPEN_CREATE),
+                   nullptr);
     if (!readonly)
     {
         db_.exec(kCreateTableInMainDb);
-- 
2.43.0


From 3bb8c75ffd23393dce7c9f18e8e08dec2aa2b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 45/59] fix: write back a changed directory at once even when
 other handles keep it open

---
 sources/full_format.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 4106cf4..044229b 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -21,6 +21,22 @@
 
 namespace securefs::full_format
 {
+namespace
+{
+    // While another handle keeps the directory open, closing it does not write out the changes, and
+    // the storage would hold a directory of which only a part has been updated.
+    void flush_directory(FileBase& dir)
+    {
+        try
+        {
+            dir.flush();
+        }
+        catch (const std::exception& e)
+        {
+            ERROR_LOG("Error writing back a directory: %s", e.what());
+        }
+    }
+}    // namespace
 void FuseHighLevelOps::initialize(struct fuse_conn_info* conn)
 {
     if (!case_insensitive_)
@@ -211,6 +227,7 @@ int FuseHighLevelOps::vunlink(const char* path, const fuse_context* ctx)
         {
             return -ENOENT;
         }
+        flush_directory(*dirholder);
     }
 
     auto fp = ft_->open_as(id, type);
@@ -250,6 +267,7 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
         return -ENOENT;
     }
     dirholder->cast_as<Directory>()->remove_entry(last_component, removed_id, removed_type);
+    flush_directory(*dirholder);
     fp->unlink();
     return 0;
 };
@@ -306,6 +324,7 @@ int FuseHighLevelOps::vlink(const char* src, const char* dest, const fuse_contex
             last_component, (**opened).get_id(), (**opened).get_real_type()))
     {
         (**opened).set_nlink((**opened).get_nlink() + 1);
+        flush_directory(*base_dir);
         return 0;
     }
     return -EEXIST;
@@ -376,6 +395,8 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
             return 0;
         }
         base_to->cast_as<Directory>()->add_entry(last_to, from_id, from_type);
+        flush_directory(*base_to);
+        flush_directory(*base_from);
     }
     if (has_to_item)
     {
@@ -626,6 +647,10 @@ FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int ui
     {
         FileLockGuard lg(*base_dir);
         success = base_dir->cast_as<Directory>()->add_entry(last_component, holder->get_id(), type);
+        if (success)
+        {
+            flush_directory(*base_dir);
+        }
     }
     catch (...)
     {
-- 
2.43.0


From bc247966dc6d8b5e2c24cb0bc9c14b3a6486c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 46/59] fix: fsync has to write out what is buffered, in the
 full format too

---
 sources/full_format.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 044229b..7422108 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -413,6 +413,7 @@ int FuseHighLevelOps::vfsync(const char* path,
 {
     auto fp = get_file(info);
     FileLockGuard lg(*fp);
+    fp->flush();
     fp->fsync();
     return 0;
 };
-- 
2.43.0


From e1d9698d7e9159e6351f50fa7ed8963e0067ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 47/59] fix: a failed write of a block or of its metadata must
 not make blocks that existed before unreadable

---
 sources/streams.cpp | 95 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 85 insertions(+), 10 deletions(-)

diff --git a/sources/streams.cpp b/sources/streams.cpp
index fc7c019..beef3f4 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -12,6 +12,7 @@
 #include <memory>
 #include <stdint.h>
 #include <string.h>
+#include <optional>
 #include <utility>
 
 #include <cryptopp/aes.h>
@@ -143,14 +144,15 @@ namespace internal
 
         void write(const void* input, offset_type off, length_type len) override
         {
-            m_stream->write(input, off + hmac_length, len);
+            // Even when it fails, a part may have been written.
             is_dirty = true;
+            m_stream->write(input, off + hmac_length, len);
         }
 
         void resize(length_type len) override
         {
-            m_stream->resize(len + hmac_length);
             is_dirty = true;
+            m_stream->resize(len + hmac_length);
         }
 
         bool is_sparse() const noexcept override { return m_stream->is_sparse(); }
@@ -276,13 +278,19 @@ void BlockBasedStream::unchecked_resize(length_type current_size, length_type ne
     {
         auto residue = new_size % m_block_size;
         auto block_num = new_size / m_block_size;
+        CryptoPP::AlignedSecByteBlock buffer(m_block_size);
         if (residue > 0)
         {
-            CryptoPP::AlignedSecByteBlock buffer(m_block_size);
             memset(buffer.data(), 0, buffer.size());
             (void)read_multi_blocks(block_num, block_num + 1, buffer.data());
+        }
+        // The last block is written at its new size, so the stream must not be longer at that time.
+        adjust_logical_size(new_size);
+        if (residue > 0)
+        {
             write_multi_blocks(block_num, block_num, residue, buffer.data());
         }
+        return;
     }
     else
     {
@@ -328,6 +336,15 @@ namespace internal
         unsigned m_iv_size, m_header_size;
         bool m_check;
 
+        // What a failed change has left to be done before the storage is consistent again.
+        struct Unfinished
+        {
+            offset_type start_block;
+            std::vector<byte> plaintext;
+            length_type size;
+        };
+        std::optional<Unfinished> m_unfinished;
+
     private:
         length_type meta_position_for_iv(offset_type block_num) const noexcept
         {
@@ -385,11 +402,54 @@ namespace internal
                                 const void* input) override
         {
             check_block_number(end_block);
+            finish();
+
+            auto start = start_block * m_block_size;
+            auto length = m_block_size * (end_block - start_block) + end_residue;
+            auto old_size = m_stream->size();
+            try
+            {
+                encrypt_and_write(start_block, length, input);
+            }
+            catch (...)
+            {
+                // The data may have been written without the metadata. In order that the blocks do
+                // not become unreadable, those which existed before are written again later, and
+                // the others withdrawn.
+                auto p = static_cast<const byte*>(input);
+                auto overwritten = start < old_size ? std::min(old_size - start, length) : 0;
+                m_unfinished = Unfinished{
+                    start_block, std::vector<byte>(p, p + overwritten), old_size};
+                throw;
+            }
+        }
+
+        void finish()
+        {
+            if (!m_unfinished)
+            {
+                return;
+            }
+            const auto& u = *m_unfinished;
+            if (m_stream->size() > u.size)
+            {
+                m_stream->resize(u.size);
+            }
+            encrypt_and_write(u.start_block, u.plaintext.size(), u.plaintext.data());
+            auto meta_size = meta_position_for_iv((u.size + m_block_size - 1) / m_block_size);
+            if (m_metastream.size() > meta_size)
+            {
+                m_metastream.resize(meta_size);
+            }
+            m_unfinished.reset();
+        }
 
-            std::vector<byte> buffer((m_block_size + get_meta_size()) * (end_block - start_block)
-                                     + (end_residue <= 0 ? 0 : end_residue + get_meta_size()));
+        void
+        encrypt_and_write(offset_type start_block, length_type data_buffer_size, const void* input)
+        {
+            auto block_num = (data_buffer_size + m_block_size - 1) / m_block_size;
+            std::vector<byte> buffer(data_buffer_size + block_num * get_meta_size());
             auto* data_buffer = buffer.data();
-            auto data_buffer_size = m_block_size * (end_block - start_block) + end_residue;
             auto* meta_buffer = buffer.data() + data_buffer_size;
             for (length_type i = 0; i < data_buffer_size;)
             {
@@ -429,6 +489,7 @@ namespace internal
             if (start_block == end_block)
                 return 0;
             check_block_number(end_block);
+            finish();
             std::vector<byte> buffer((end_block - start_block) * (m_block_size + get_meta_size()));
             auto* data_buffer = buffer.data();
             auto data_buffer_size = (end_block - start_block) * m_block_size;
@@ -494,9 +555,19 @@ namespace internal
 
         void adjust_logical_size(length_type length) override
         {
-            m_stream->resize(length);
-            auto block_num = (length + this->m_block_size - 1) / this->m_block_size;
-            m_metastream.resize(meta_position_for_iv(block_num));
+            finish();
+            auto old_size = m_stream->size();
+            try
+            {
+                m_stream->resize(length);
+                auto block_num = (length + this->m_block_size - 1) / this->m_block_size;
+                m_metastream.resize(meta_position_for_iv(block_num));
+            }
+            catch (...)
+            {
+                m_unfinished = Unfinished{0, {}, std::min(old_size, length)};
+                throw;
+            }
         }
 
     public:
@@ -507,11 +578,15 @@ namespace internal
 
         void flush() override
         {
+            finish();
             m_stream->flush();
             m_metastream.flush();
         }
 
-        length_type size() const override { return m_stream->size(); }
+        length_type size() const override
+        {
+            return m_unfinished ? m_unfinished->size : m_stream->size();
+        }
 
     private:
         length_type unchecked_read_header(void* output)
-- 
2.43.0


From 5c7dec6a2240bc19c4a16d1add25d78e854e9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:30 +0000
Subject: [PATCH 48/59] fix: a failed page operation must not leave the tree of
 a directory half changed

---
 sources/btree_dir.cpp | 131 ++++++++++++++++++++++++++++++++++++++----
 sources/btree_dir.h   |   7 +++
 2 files changed, 126 insertions(+), 12 deletions(-)

diff --git a/sources/btree_dir.cpp b/sources/btree_dir.cpp
index 840001c..793f7df 100644
--- a/sources/btree_dir.cpp
+++ b/sources/btree_dir.cpp
@@ -1,11 +1,13 @@
 #include "btree_dir.h"
 #include "exceptions.h"
 #include "files.h"
+#include "logger.h"
 
 #include <absl/strings/str_format.h>
 
 #include <algorithm>
 #include <iterator>
+#include <numeric>
 #include <stdio.h>
 #include <type_traits>
 #include <utility>
@@ -165,14 +167,15 @@ uint32_t BtreeDirectory::allocate_page()
     }
     FreePage fp;
     read_free_page(pg, fp);
-    set_num_free_page(get_num_free_page() - 1);
-    set_start_free_page(fp.next);
-    if (fp.next != INVALID_PAGE)
+    auto next = fp.next;
+    if (next != INVALID_PAGE)
     {
-        read_free_page(fp.next, fp);
+        read_free_page(next, fp);
         fp.prev = INVALID_PAGE;
-        write_free_page(get_start_free_page(), fp);
+        write_free_page(next, fp);
     }
+    set_num_free_page(get_num_free_page() - 1);
+    set_start_free_page(next);
     return pg;
 }
 
@@ -201,6 +204,19 @@ void BtreeDirectory::deallocate_page(uint32_t num)
     set_num_free_page(get_num_free_page() + 1);
 }
 
+void BtreeDirectory::deallocate_page_nothrow(uint32_t num) noexcept
+{
+    try
+    {
+        deallocate_page(num);
+    }
+    catch (const std::exception& e)
+    {
+        // It remains unused until the directory is rebuilt.
+        WARN_LOG("Failed to free page %d of a directory: %s", num, e.what());
+    }
+}
+
 bool BtreeNode::from_buffer(const byte* buffer, size_t size)
 {
     const byte* end_of_buffer = buffer + size;
@@ -347,10 +363,60 @@ BtreeDirectory::Node* BtreeDirectory::retrieve_node(uint32_t parent_num, uint32_
     return result;
 }
 
+void BtreeDirectory::reserve_pages(size_t count)
+{
+    while (m_reserved_pages.size() < count)
+    {
+        auto num = allocate_page();
+        // If the page that should be free is in use, then the free list is wrong.
+        dir_check(!m_node_cache.contains(num));
+        m_reserved_pages.push_back(num);
+    }
+}
+
+void BtreeDirectory::release_reserved_pages() noexcept
+{
+    for (; !m_reserved_pages.empty(); m_reserved_pages.pop_back())
+    {
+        deallocate_page_nothrow(m_reserved_pages.back());
+    }
+}
+
+size_t BtreeDirectory::count_pages_for_insertion(const BtreeNode* n)
+{
+    size_t count = 0;
+    for (; n->entries().size() >= BTREE_MAX_NUM_ENTRIES;)
+    {
+        ++count;
+        if (n->parent_page_number() == INVALID_PAGE)
+        {
+            return count + 1;
+        }
+        n = retrieve_existing_node(n->parent_page_number());
+        dir_check(n != nullptr && count < BTREE_MAX_DEPTH);
+    }
+    return count;
+}
+
+// Reads every node that may take part in the balancing after `n` has lost an entry.
+void BtreeDirectory::load_for_removal(const BtreeNode* n)
+{
+    for (int i = 0; n->parent_page_number() != INVALID_PAGE
+         && n->entries().size() <= BTREE_MAX_NUM_ENTRIES / 2;
+         ++i)
+    {
+        const Node* parent = retrieve_existing_node(n->parent_page_number());
+        dir_check(parent != nullptr && i < BTREE_MAX_DEPTH);
+        find_sibling(parent, n);
+        n = parent;
+    }
+}
+
 BtreeDirectory::Node* BtreeDirectory::create_node(uint32_t parent_num)
 {
-    auto num = allocate_page();
-    // If the page that should be free is in use, then the free list is wrong.
+    reserve_pages(1);
+    auto num = m_reserved_pages.back();
+    m_reserved_pages.pop_back();
     auto inserted = m_node_cache.emplace(num, make_unique<Node>(parent_num, num));
     dir_check(inserted.second);
     return inserted.first->second.get();
@@ -456,6 +522,16 @@ bool BtreeDirectory::add_entry_impl(std::string_view name, const id_type& id, in
             Entry{std::string(name), id, static_cast<uint32_t>(type)});
         return true;
     }
+    try
+    {
+        // Nothing may fail once the nodes are being changed.
+        reserve_pages(count_pages_for_insertion(node));
+    }
+    catch (...)
+    {
+        release_reserved_pages();
+        throw;
+    }
     insert_and_balance(
         node, Entry{std::string(name), id, static_cast<uint32_t>(type)}, INVALID_PAGE, 0);
     return true;
@@ -518,6 +594,7 @@ BtreeNode* BtreeDirectory::replace_with_sub_entry(BtreeNode* n, ptrdiff_t index,
     dir_check(depth < BTREE_MAX_DEPTH);
     if (n->is_leaf())
     {
+        load_for_removal(n);
         erase(n->mutable_entries(), index);
         return n;
     }
@@ -530,6 +607,7 @@ BtreeNode* BtreeDirectory::replace_with_sub_entry(BtreeNode* n, ptrdiff_t index,
             lchild = retrieve_node(lchild->page_number(), lchild->children().back());
         }
         dir_check(!lchild->entries().empty());
+        load_for_removal(lchild);
         n->mutable_entries().at(index) = std::move(lchild->mutable_entries().back());
         lchild->mutable_entries().pop_back();
         return lchild;
@@ -540,8 +618,9 @@ void BtreeDirectory::del_node(BtreeNode* n)
 {
     if (!n)
         return;
-    deallocate_page(n->page_number());
-    m_node_cache.erase(n->page_number());
+    auto num = n->page_number();
+    m_node_cache.erase(num);
+    deallocate_page_nothrow(num);
 }
 
 std::pair<ptrdiff_t, BtreeNode*> BtreeDirectory::find_sibling(const BtreeNode* parent,
@@ -774,13 +853,41 @@ void BtreeDirectory::rebuild()
         [&](const std::string& name, const id_type& id, int type)
         { entries.push_back(DirEntry{name, id, static_cast<uint32_t>(type)}); },
         0);
+    flush_cache();
     clear_cache();    // root is invalid after this line
-    m_stream->resize(0);
+
+    // Construct the new tree in memory, taking the pages from the start on. The stream is only
+    // changed when that is complete.
+    const auto old_num_free = get_num_free_page();
+    const auto old_start_free = get_start_free_page();
+    const auto old_root = get_root_page();
+    m_reserved_pages.resize(m_stream->size() / BLOCK_SIZE);
+    std::iota(m_reserved_pages.rbegin(), m_reserved_pages.rend(), 0);
     set_num_free_page(0);
     set_start_free_page(INVALID_PAGE);
     set_root_page(INVALID_PAGE);
-    for (DirEntry& e : entries)
-        add_entry(e.filename, e.id, e.type);
+    try
+    {
+        for (DirEntry& e : entries)
+            add_entry(e.filename, e.id, e.type);
+    }
+    catch (...)
+    {
+        clear_cache();
+        m_reserved_pages.clear();
+        set_num_free_page(old_num_free);
+        set_start_free_page(old_start_free);
+        set_root_page(old_root);
+        throw;
+    }
+    m_reserved_pages.clear();
+    uint32_t page_count = 0;
+    for (auto&& pair : m_node_cache)
+    {
+        page_count = std::max(page_count, pair.first + 1);
+    }
+    flush_cache();
+    m_stream->resize(page_offset(page_count));
 }
 
 bool BtreeDirectory::empty()
diff --git a/sources/btree_dir.h b/sources/btree_dir.h
index 39c5a66..7b3ed31 100644
--- a/sources/btree_dir.h
+++ b/sources/btree_dir.h
@@ -117,6 +117,8 @@ private:
 
 private:
     absl::flat_hash_map<uint32_t, std::unique_ptr<Node>> m_node_cache;
+    // Pages that are allocated but not yet in use.
+    std::vector<uint32_t> m_reserved_pages;
 
 private:
     bool read_node(uint32_t, Node&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
@@ -125,6 +127,11 @@ private:
     void write_free_page(uint32_t, const FreePage&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     void deallocate_page(uint32_t) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     uint32_t allocate_page() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    void deallocate_page_nothrow(uint32_t) noexcept ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    void reserve_pages(size_t count) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    void release_reserved_pages() noexcept ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    size_t count_pages_for_insertion(const Node*) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
+    void load_for_removal(const Node*) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
     Node* retrieve_node(uint32_t parent_num, uint32_t num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
     Node* create_node(uint32_t parent_num) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
-- 
2.43.0


From 56e4d21909ff6413fd304464287b0200bf60161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 49/59] fix: a listing must not leave out long names because
 their table cannot be read for the moment

---
 sources/lite_format.cpp   | 13 +++++++++++++
 sources/sqlite_helper.cpp | 20 ++++++++++++++++++++
 sources/sqlite_helper.h   |  3 +++
 3 files changed, 36 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 3cb1bd2..1583c19 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -691,6 +691,19 @@ namespace
                                         }},
                                name_trans_.decrypt_path_component(under_name));
                 }
+                catch (const SQLiteException& e)
+                {
+                    if (e.is_transient())
+                    {
+                        // Leaving out a name that may be valid makes the listing wrong.
+                        throw;
+                    }
+                    WARN_LOG("Skipping filename %s/%s due to exception in decoding: %s",
+                             dir_abs_path_,
+                             under_name,
+                             e.what());
+                    continue;
+                }
                 catch (const std::exception& e)
                 {
                     WARN_LOG("Skipping filename %s/%s due to exception in decoding: %s",
diff --git a/sources/sqlite_helper.cpp b/sources/sqlite_helper.cpp
index 6558f4c..0354263 100644
--- a/sources/sqlite_helper.cpp
+++ b/sources/sqlite_helper.cpp
@@ -27,15 +27,35 @@ static int sqlite_error_number(int code, int system_errno) noexcept
     }
 }
 
+static bool sqlite_error_is_transient(int code, int error_number) noexcept
+{
+    switch (code & 0xFF)
+    {
+    case SQLITE_IOERR:
+    case SQLITE_NOMEM:
+    case SQLITE_FULL:
+    case SQLITE_BUSY:
+    case SQLITE_LOCKED:
+        return true;
+    case SQLITE_CANTOPEN:
+        return error_number == EMFILE || error_number == ENFILE || error_number == ENOMEM
+            || error_number == ENOSPC || error_number == EIO;
+    default:
+        return false;
+    }
+}
+
 SQLiteException::SQLiteException(int code)
     : m_msg(absl::StrFormat("SQLite error %d: %s", code, sqlite3_errstr(code)))
     , m_errno(sqlite_error_number(code, 0))
+    , m_transient(sqlite_error_is_transient(code, 0))
 {
 }
 
 SQLiteException::SQLiteException(sqlite3* db, int code)
     : m_msg(absl::StrFormat("SQLite error %d: %s", code, sqlite3_errmsg(db)))
     , m_errno(sqlite_error_number(code, db ? sqlite3_system_errno(db) : 0))
+    , m_transient(sqlite_error_is_transient(code, db ? sqlite3_system_errno(db) : 0))
 {
 }
 
diff --git a/sources/sqlite_helper.h b/sources/sqlite_helper.h
index cb9a9b3..44e8bdb 100644
--- a/sources/sqlite_helper.h
+++ b/sources/sqlite_helper.h
@@ -86,6 +86,7 @@ class SQLiteException : public ExceptionBase
 private:
     std::string m_msg;
     int m_errno;
+    bool m_transient;
 
 public:
     explicit SQLiteException(int code);
@@ -93,6 +94,8 @@ public:
 
     std::string message() const override { return m_msg; }
     int error_number() const noexcept override { return m_errno; }
+    // Whether the same operation may succeed when it is repeated later.
+    bool is_transient() const noexcept { return m_transient; }
 };
 
 void check_sqlite_call(int code);
-- 
2.43.0


From 8b89fa672aefbe3978b96fe21e11352f6d4ac5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 50/59] fix: a new lite file whose header cannot be written
 must not stay

---
 sources/lite_format.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 1583c19..8846a3c 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1238,7 +1238,22 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
         path,
         (flags & O_CREAT) ? LongNameComponentAction::kCreate : LongNameComponentAction::kIgnore,
         [&](std::string&& enc_path)
-        { fp = std::make_unique<File>(root_->open_file_stream(enc_path, flags, mode), *opener_); });
+        {
+            auto stream = root_->open_file_stream(enc_path, flags, mode);
+            try
+            {
+                fp = std::make_unique<File>(std::move(stream), *opener_);
+            }
+            catch (...)
+            {
+                if ((flags & O_CREAT) && (flags & O_EXCL))
+                {
+                    // The new file lacks its header.
+                    root_->remove_file_nothrow(enc_path);
+                }
+                throw;
+            }
+        });
 
     if (truncate)
     {
-- 
2.43.0


From 4b6b8acd35466ec3bb4c19a15dcc377a7b3cc009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 51/59] fix: journals of unfinished transactions must not
 prevent the removal of an empty lite directory

---
 sources/lite_format.cpp | 60 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 8846a3c..1594bce 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1291,22 +1291,64 @@ bool FuseHighLevelOps::remove_sole_long_name_table(const std::string& enc_dir)
         return false;
     }
     bool has_table = false;
-    auto traverser = root_->create_traverser(enc_dir);
-    std::string name;
-    while (traverser->next(&name, nullptr))
+    std::vector<std::string> journals;
+    const auto table_name = absl::StrCat(enc_dir, "/", kLongNameTableFileName);
+    const auto only_table_files = [&]()
+    {
+        has_table = false;
+        journals.clear();
+        auto traverser = root_->create_traverser(enc_dir);
+        std::string name;
+        while (traverser->next(&name, nullptr))
+        {
+            if (name == kLongNameTableFileName)
+            {
+                has_table = true;
+            }
+            else if (absl::StartsWith(name, absl::StrCat(kLongNameTableFileName, "-")))
+            {
+                journals.push_back(name);
+            }
+            else if (name != "." && name != "..")
+            {
+                return false;
+            }
+        }
+        return true;
+    };
+    if (!only_table_files())
+    {
+        return false;
+    }
+    if (has_table && !journals.empty())
     {
-        if (name == kLongNameTableFileName)
+        // A transaction could not be finished. Let it be undone first, because the table and its
+        // journal can only be removed one after the other.
+        try
+        {
+            LongNameLookupTable(root_->norm_path_narrowed(table_name), true).list_hashes();
+        }
+        catch (const SQLiteException& e)
+        {
+            if (e.is_transient())
+            {
+                throw;
+            }
+        }
+        if (!only_table_files())
         {
-            has_table = true;
+            return false;
         }
-        else if (name != "." && name != "..")
+    }
+    for (const auto& name : journals)
+    {
+        if (!root_->remove_file_nothrow(absl::StrCat(enc_dir, "/", name)))
         {
             return false;
         }
     }
-    traverser.reset();
-    return has_table
-        && root_->remove_file_nothrow(absl::StrCat(enc_dir, "/", kLongNameTableFileName));
+    return (has_table || !journals.empty())
+        && (!has_table || root_->remove_file_nothrow(table_name));
 }
 void FuseHighLevelOps::process_possible_long_name(
     absl::string_view path,
-- 
2.43.0


From bf333721eee8074740f0aa352d08f5d6ecd7b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 52/59] fix: record a new long name before creating the entry,
 so that a failing commit does not hide it

---
 sources/lite_format.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 1594bce..1f8acbc 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1369,6 +1369,14 @@ void FuseHighLevelOps::process_possible_long_name(
         return;
     }
     LongNameLookupTable table(long_name_table_file_name(enc_path), false);
+    if (action == LongNameComponentAction::kCreate)
+    {
+        // The name must be on disk before anything bears it. Otherwise a failure to commit below
+        // would leave a file that is missing from the listings.
+        LockGuard<LongNameLookupTable> table_lg(table);
+        table.update_mapping(name_trans_->get_last_component(enc_path), encrypted_last_component);
+        table.commit();
+    }
     // Open a transaction so that we will rollback properly if the following operations fail.
     LockGuard<LongNameLookupTable> table_lg(table);
     switch (action)
-- 
2.43.0


From 83d03f92d54d7847256222d98ce98459542dbaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 53/59] fix: a creation that fails while the directory is
 written back must not leave its entry

---
 sources/full_format.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 7422108..7f3d00f 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -656,7 +656,13 @@ FuseHighLevelOps::create(absl::string_view path, unsigned mode, int type, int ui
     catch (...)
     {
         // No entry refers to the new object, so it must not stay in the storage.
-        FileLockGuard lg(*holder);
+        DoubleFileLockGuard lg(*base_dir, *holder);
+        if (success)
+        {
+            id_type id;
+            int removed_type;
+            base_dir->cast_as<Directory>()->remove_entry(last_component, id, removed_type);
+        }
         holder->unlink();
         throw;
     }
-- 
2.43.0


From 46dd23bbc90d16907ff7838701c9c54fbefa9a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 54/59] fix: do not leave a part of a process ID in the lock
 file

---
 sources/full_format.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 7f3d00f..be40115 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -766,7 +766,16 @@ void RepoLocker::check_lock_file()
         }
         auto own_pid = absl::StrCat(OSService::get_current_process_id());
         stream->resize(0);
-        stream->write(own_pid.data(), 0, own_pid.size());
+        try
+        {
+            stream->write(own_pid.data(), 0, own_pid.size());
+        }
+        catch (...)
+        {
+            // A part of our process ID may be that of somebody else.
+            stream->resize(0);
+            throw;
+        }
         lock_stream_ = stream;
         return;
     }
-- 
2.43.0


From 6a96928687854b55f9632f50205a2f89e7d2019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:12 +0000
Subject: [PATCH 55/59] fix: wait for another thread's use of the long name
 table instead of failing with EBUSY

---
 sources/lite_long_name_lookup_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index cc5381d..262e725 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -45,11 +45,11 @@ LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool reado
                    SQLITE_OPEN_NOMUTEX | SQLITE_OPEN_READWRITE
                        | (readonly ? 0 : SQLITE_OPEN_CREATE),
                    nullptr);
+    db_.set_timeout(2000);
     if (!readonly)
     {
         db_.exec(kCreateTableInMainDb);
     }
-    db_.set_timeout(2000);
 }
 
 LongNameLookupTable::~LongNameLookupTable() {}
-- 
2.43.0


From 66fb8614c1c84fdd802b51bf19b9a1d773964f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:12 +0000
Subject: [PATCH 56/59] fix: closing a full-format object read it after another
 thread might have destroyed it

---
 sources/file_table_v2.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index 933db93..35c5bb2 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -372,9 +372,14 @@ namespace
 
 void FileTableCloser::operator()(FileBase* fb) const
 {
-    if (fb && table_ && fb->decref() <= 0)
+    if (fb && table_)
     {
-        table_->close(fb->get_id());
+        // Once the reference is given up, another thread may destroy the object.
+        const id_type id = fb->get_id();
+        if (fb->decref() <= 0)
+        {
+            table_->close(id);
+        }
     }
 }
 std::shared_ptr<FileTableIO> make_table_io(std::shared_ptr<OSService> os_service,
-- 
2.43.0


From fca326dd7475e5f74158cf4d7f7f746f3540c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:34 +0000
Subject: [PATCH 57/59] fix: renames in opposite directions between two lite
 directories blocked each other until they failed with EBUSY

---
 sources/lite_long_name_lookup_table.cpp | 29 +++++++++++++++++--------
 sources/lite_long_name_lookup_table.h   | 14 ++++++++++--
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/sources/lite_long_name_lookup_table.cpp b/sources/lite_long_name_lookup_table.cpp
index 262e725..1c9410d 100644
--- a/sources/lite_long_name_lookup_table.cpp
+++ b/sources/lite_long_name_lookup_table.cpp
@@ -36,6 +36,10 @@ namespace
             delete from main.encrypted_mappings
                 where keyed_hash = ?;
         )";
+    constexpr const char* kDeleteFromSecondaryMapping = R"(
+            delete from secondary.encrypted_mappings
+                where keyed_hash = ?;
+        )";
 }    // namespace
 LongNameLookupTable::LongNameLookupTable(const std::string& filename, bool readonly)
 {
@@ -97,7 +101,7 @@ void LongNameLookupTable::remove_mapping(std::string_view keyed_hash)
     q.step();
 }
 
-void internal::LookupTableBase::begin() { db_.exec("begin;"); }
+void internal::LookupTableBase::begin() { db_.exec(begin_statement_); }
 
 void internal::LookupTableBase::commit()
 {
@@ -126,28 +130,35 @@ void internal::LookupTableBase::finish() noexcept
 
 DoubleLongNameLookupTable::DoubleLongNameLookupTable(const std::string& from_dir_db,
                                                      const std::string& to_dir_db)
-    : is_same_db_(from_dir_db == to_dir_db)
+    : is_from_main_(from_dir_db <= to_dir_db), is_to_main_(to_dir_db <= from_dir_db)
 {
-    db_ = SQLiteDB(from_dir_db.c_str(),
+    // Two renames in opposite directions must lock the two databases in the same order, or each
+    // would wait for the other. So the databases are attached in a fixed order, and locked at the
+    // beginning, which SQLite does in the order of their attachment.
+    const auto& main_db = is_from_main_ ? from_dir_db : to_dir_db;
+    const auto& secondary_db = is_from_main_ ? to_dir_db : from_dir_db;
+    begin_statement_ = "begin immediate;";
+
+    db_ = SQLiteDB(main_db.c_str(),
                    SQLITE_OPEN_NOMUTEX | SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE,
                    nullptr);
     db_.set_timeout(2000);
-    if (is_same_db_)
+    db_.exec(kCreateTableInMainDb);
+    if (is_from_main_ && is_to_main_)
     {
-        db_.exec(kCreateTableInMainDb);
         return;
     }
     {
         SQLiteStatement attacher(db_, "attach database ? as secondary;");
-        attacher.bind_text(1, to_dir_db);
+        attacher.bind_text(1, secondary_db);
         attacher.step();
     }
-    db_.exec(absl::StrCat(kCreateTableInMainDb, ";\n", kCreateTableInSecondaryDb).c_str());
+    db_.exec(kCreateTableInSecondaryDb);
 }
 
 void DoubleLongNameLookupTable::remove_mapping_from_from_db(std::string_view keyed_hash)
 {
-    SQLiteStatement q(db_, kDeleteFromMainMapping);
+    SQLiteStatement q(db_, is_from_main_ ? kDeleteFromMainMapping : kDeleteFromSecondaryMapping);
     q.reset();
     q.bind_text(1, keyed_hash);
     q.step();
@@ -156,7 +167,7 @@ void DoubleLongNameLookupTable::remove_mapping_from_from_db(std::string_view key
 void DoubleLongNameLookupTable::update_mapping_to_to_db(std::string_view keyed_hash,
                                                         std::string_view encrypted_long_name)
 {
-    SQLiteStatement q(db_, is_same_db_ ? kUpdateMainMapping : kUpdateSecondaryMapping);
+    SQLiteStatement q(db_, is_to_main_ ? kUpdateMainMapping : kUpdateSecondaryMapping);
     q.reset();
     q.bind_text(1, keyed_hash);
     q.bind_text(2, encrypted_long_name);
diff --git a/sources/lite_long_name_lookup_table.h b/sources/lite_long_name_lookup_table.h
index cc948c5..eb978c1 100644
--- a/sources/lite_long_name_lookup_table.h
+++ b/sources/lite_long_name_lookup_table.h
@@ -20,7 +20,15 @@ namespace internal
         void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION(*this) ABSL_NO_THREAD_SAFETY_ANALYSIS
         {
             db_.mutex().Lock();
-            begin();
+            try
+            {
+                begin();
+            }
+            catch (...)
+            {
+                db_.mutex().Unlock();
+                throw;
+            }
             committed_ = false;
         }
 
@@ -40,6 +48,7 @@ namespace internal
     protected:
         SQLiteDB db_ ABSL_GUARDED_BY(*this);
         bool committed_ ABSL_GUARDED_BY(*this) = false;
+        const char* begin_statement_ = "begin;";
 
     protected:
         void begin() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
@@ -77,6 +86,7 @@ public:
         ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this);
 
 private:
-    bool is_same_db_;
+    // Which of the attached databases (`main` or `secondary`) is which.
+    bool is_from_main_, is_to_main_;
 };
 }    // namespace securefs
-- 
2.43.0


From 672ba2bd68eb9e69a9cf6498396eb49838973c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:00 +0000
Subject: [PATCH 58/59] fix: getpath kept names of a directory after giving up
 its lock

---
 sources/full_format.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index be40115..4db7a6b 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -528,11 +528,12 @@ int FuseHighLevelOps::vgetpath(
     absl::InlinedVector<std::string_view, 7> splits = absl::StrSplit(path, '/', absl::SkipEmpty());
     auto parent_id = kRootId;
     FilePtrHolder holder = ft_->open_as(kRootId, Directory::class_type());
+    std::string result;
+    result.reserve(strlen(path) + 31);
     for (auto& split : splits)
     {
         id_type id;
         int type;
-        std::string_view normed_name;
         {
             FileLockGuard lg(*holder);
             auto get_result = holder->cast_as<Directory>()->get_entry(split, id, type);
@@ -540,19 +541,13 @@ int FuseHighLevelOps::vgetpath(
             {
                 throwVFSException(ENOENT);
             }
-            normed_name = *get_result;
+            // The name belongs to the directory, and is only valid while that is locked.
+            result.push_back('/');
+            result.append(get_result->data(), get_result->size());
         }
         holder = ft_->open_as(id, type);
         holder->set_parent_id(parent_id);
         parent_id = holder->get_id();
-        split = normed_name;
-    }
-    std::string result;
-    result.reserve(strlen(path) + 31);
-    for (auto p : splits)
-    {
-        result.push_back('/');
-        result.append(p.data(), p.size());
     }
     return copy_and_return(result);
 };
-- 
2.43.0


From 89e04d34940be4fa8a9a5dc572dcbf49cdae8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:32 +0000
Subject: [PATCH 59/59] fix: listing a renamed lite directory through an older
 handle left out its long names

---
 sources/lite_format.cpp | 11 +++++++++--
 sources/platform.h      |  2 ++
 sources/unix.cpp        | 17 +++++++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 1f8acbc..97f84bc 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -715,7 +715,11 @@ namespace
                 return true;
             }
         }
-        void rewind() override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this) { under_traverser_->rewind(); }
+        void rewind() override ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
+        {
+            under_traverser_->rewind();
+            long_table_.reset();    // The directory may be elsewhere by now.
+        }
 
     private:
         LongNameLookupTable& lazy_get_table() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
@@ -725,7 +729,10 @@ namespace
                 return *long_table_;
             }
             long_table_.emplace(
-                OSService::concat_and_norm_narrowed(dir_abs_path_, kLongNameTableFileName), true);
+                OSService::concat_and_norm_narrowed(
+                    under_traverser_->current_path().value_or(dir_abs_path_),
+                    kLongNameTableFileName),
+                true);
             return *long_table_;
         }
 
diff --git a/sources/platform.h b/sources/platform.h
index f70dba8..2bf8b93 100644
--- a/sources/platform.h
+++ b/sources/platform.h
@@ -133,6 +133,8 @@ public:
     virtual ~DirectoryTraverser();
     virtual bool next(std::string* name, fuse_stat* st) = 0;
     virtual void rewind() = 0;
+    // Where the directory is now, if that can be found out. It may have been renamed since.
+    virtual std::optional<std::string> current_path() const { return std::nullopt; }
 };
 
 #ifdef _WIN32
diff --git a/sources/unix.cpp b/sources/unix.cpp
index ac0a5fc..4b79a76 100644
--- a/sources/unix.cpp
+++ b/sources/unix.cpp
@@ -280,6 +280,23 @@ public:
     }
 
     void rewind() override { ::rewinddir(m_dir); }
+
+    std::optional<std::string> current_path() const override
+    {
+        char buffer[PATH_MAX + 1] = {0};
+#if defined(__APPLE__)
+        if (::fcntl(::dirfd(m_dir), F_GETPATH, buffer) < 0)
+            return std::nullopt;
+#elif defined(__linux__)
+        auto link = absl::StrCat("/proc/self/fd/", ::dirfd(m_dir));
+        auto rc = ::readlink(link.c_str(), buffer, PATH_MAX);
+        if (rc <= 0 || rc >= PATH_MAX)
+            return std::nullopt;
+#endif
+        if (buffer[0] != '/')
+            return std::nullopt;
+        return std::string(buffer);
+    }
 };
 
 bool OSService::is_absolute(std::string_view path) { return path.size() > 0 && path[0] == '/'; }
-- 
2.43.0

