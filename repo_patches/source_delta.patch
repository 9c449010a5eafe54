From a37f0d0e1ddc8f9f8e4f482fc4efd831c2fdad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 01/34] fix: attach KDB groups to the right parent after
 closing several levels

The stack of last groups per level was only ever appended to, so after
returning to an outer level a deeper group was attached to a stale group.
---
 src/kdb.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 3a5a7fb..c06f3c9 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -619,7 +619,10 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
       last_group_by_level.push_back(group);
     } else {
       last_group_by_level[group_level - 1]->AddGroup(group);
-      last_group_by_level[group_level] = group;
+
+      // Forget the groups on deeper levels, they can't have any more children.
+      last_group_by_level.resize(group_level);
+      last_group_by_level.push_back(group);
     }
 
     last_group_level = group_level;
-- 
2.43.0


From 9c0c20588c6b630dece145f84e3a8706c06e2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 02/34] fix: reject KDB groups at level 65535 instead of
 indexing out of bounds

The level plus one wrapped to zero, which made the parent index -1.
---
 src/kdb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index c06f3c9..283b0ac 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -599,7 +599,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-  uint16_t last_group_level = 0;
+  uint32_t last_group_level = 0;
 
   std::vector<std::shared_ptr<Group>> last_group_by_level;
   last_group_by_level.push_back(group_root);
@@ -609,7 +609,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
     // Level of current group plus one, because we have inserted the root at
     // level zero.
-    uint16_t group_level = std::get<1>(group_data) + 1;
+    uint32_t group_level = static_cast<uint32_t>(std::get<1>(group_data)) + 1;
 
     if (group_level > last_group_level) {
       if (group_level != last_group_level + 1)
-- 
2.43.0


From 649db2e885450298acc3b9434e4dbd3b286db2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 03/34] fix: throw on duplicate KDB group identifiers instead
 of aborting

---
 src/kdb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 283b0ac..824dd64 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -585,8 +585,8 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     std::shared_ptr<Group> group = ReadGroup(content, group_id, group_level);
 
     groups.push_back(std::make_tuple(group, group_level));
-    assert(group_map.count(group_id) == 0);
-    group_map[group_id] = group;
+    if (!group_map.insert(std::make_pair(group_id, group)).second)
+      throw FormatError("Duplicate group identifier in KDB.");
   }
 
   std::vector<std::tuple<std::shared_ptr<Entry>, uint32_t>> entries;
-- 
2.43.0


From 5845a85016b169219bf87fd8b0ed19b98c26ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 04/34] fix: stop reading a KDB field at the end of the file

A record with a corrupt size of up to 4 GiB was padded with that many
end-of-file characters in memory before the error was noticed.
---
 src/kdb.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 824dd64..d0df51f 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -191,9 +191,8 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
     // sure to read the complete field regardless of how much of it that we
     // parse.
     std::stringstream field;
-    std::generate_n(std::ostreambuf_iterator<char>(field),
-                    field_size,
-                    [&src]() { return src.get(); });
+    for (uint32_t i = 0; i < field_size && src.good(); ++i)
+      field.put(static_cast<char>(src.get()));
     if (!src.good())
       throw IoError("Read error.");
 
@@ -302,9 +301,8 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
     // sure to read the complete field regardless of how much of it that we
     // parse.
     std::stringstream field;
-    std::generate_n(std::ostreambuf_iterator<char>(field),
-                    field_size,
-                    [&src]() { return src.get(); });
+    for (uint32_t i = 0; i < field_size && src.good(); ++i)
+      field.put(static_cast<char>(src.get()));
     if (!src.good())
       throw IoError("Read error.");
 
-- 
2.43.0


From 2043486b83a87729417aec50e457cf3f18b69486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 05/34] fix: give empty KDB attachments an empty binary

An attachment with a name but no data was imported without a binary, and
exporting or dumping it crashed.
---
 src/kdb.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index d0df51f..a1478a4 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -378,8 +378,15 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
         }
         break;
       case KdbEntryFieldType::kEnd:
-        if (attachment)
+        if (attachment) {
+          // Attachments without any data don't have a data field.
+          if (!attachment->binary()) {
+            attachment->set_binary(std::make_shared<Binary>(
+                protect<std::string>(std::string(), false)));
+          }
+
           entry->AddAttachment(attachment);
+        }
         return entry;
       default:
         throw FormatError("Illegal entry field in KDB.");
-- 
2.43.0


From ac1f2352f5b8d1fbb32acb1d24a651307a12ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 06/34] fix: export unset times to KDB as never

Import turns the never constant into zero, but export wrote zero as
1970-01-01, so an entry without expiry came back as expired.
---
 src/kdb.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index a1478a4..c5779c9 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -76,7 +76,8 @@ struct KdbTime {
     static constexpr std::array<uint8_t, 5> kNeverTimeConstant = {
       0x2e, 0xdf, 0x39, 0x7e, 0xfb
     };
-    if (time == -1) {
+    // A "never" time is represented by zero once imported.
+    if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
       std::tm* time_ptr = std::localtime(&time);
-- 
2.43.0


From c4ae0dddb70db9c5013ec38021befc92bab2ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 07/34] fix: don't abort on invalid dates in KDB files

---
 src/kdb.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index c5779c9..0132d01 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -116,12 +116,11 @@ struct KdbTime {
     if (packed == kNeverTimeConstant)
       return 0;
 
-    assert(second <= 60);
-    assert(minute <= 59);
-    assert(hour <= 23);
-    assert(day >= 1 && day <= 31);
-    assert(month >= 1 && month <= 12);
-    assert(year >= 1900);
+    // The date may be anything in a corrupt file.
+    if (second > 60 || minute > 59 || hour > 23 || day < 1 || day > 31 ||
+        month < 1 || month > 12 || year < 1900) {
+      return 0;
+    }
 
     std::tm time;
     time.tm_sec = second;
@@ -135,10 +134,8 @@ struct KdbTime {
     time.tm_isdst = -1;
 
     std::time_t res = std::mktime(&time);
-    if (res == -1) {
-      assert(false);
+    if (res == -1)
       return 0;
-    }
 
     return res;
   }
-- 
2.43.0


From 546ce3d84293131db319ac056f8c2fec2828bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 08/34] fix: reject empty and zero-padded CBC input when
 decrypting

PKCS #7 padding is between one and sixteen bytes long, so a padding length
of zero and an empty ciphertext can only be the result of damage.
---
 src/cipher.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cipher.cc b/src/cipher.cc
index ee0f8bc..4942721 100644
--- a/src/cipher.cc
+++ b/src/cipher.cc
@@ -176,6 +176,7 @@ void encrypt_cbc(std::istream& src, std::ostream& dst,
 void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher) {
   std::array<uint8_t, 16> prv = cipher.InitializationVector();
 
+  bool padding_found = false;
   block_transform<16>(src, dst, [&](const std::array<uint8_t, 16>& src,
                                     std::array<uint8_t, 16>& dst,
                                     std::size_t src_len,
@@ -192,7 +193,7 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
     if (last) {
       // Handle PKCS #7 padding for the last block.
       uint32_t pad_len = dst[15];
-      if (pad_len > 16)
+      if (pad_len == 0 || pad_len > 16)
         throw IoError("Decryption error.");
 
       for (std::size_t i = 16 - pad_len; i < 16; ++i) {
@@ -200,12 +201,17 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
           throw IoError("Decryption error.");
       }
 
+      padding_found = true;
       return 16 - pad_len;
     }
 
     prv = src;
     return 16;
   });
+
+  // There is always at least one block of data because of the padding.
+  if (!padding_found)
+    throw IoError("Decryption error.");
 }
 
 AesCipher::AesCipher(const std::array<uint8_t, 32>& key,
-- 
2.43.0


From a97a0ffbce74f3e5d800763111f3f8033d50bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 09/34] fix: report failed writes when exporting

Nothing checked the output stream, so exporting to a full disk looked
successful while leaving a truncated database.
---
 src/kdb.cc  | 4 ++++
 src/kdbx.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 0132d01..8d99f40 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -759,6 +759,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Encrypt the content.
   encrypt_cbc(content, dst, *cipher);
+
+  dst.flush();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 043390e..670608d 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1233,6 +1233,10 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
+
+  dst.flush();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
-- 
2.43.0


From 7d2f8ec272a07298100eb2de1bc40c095ab6d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 10/34] fix: detect truncated hashed block streams

A missing block header was read from uninitialized memory, and a block
with a corrupt size was filled with up to 4 GiB of end-of-file characters.
---
 src/stream.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index 23ca7c6..b1d4030 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -44,15 +44,18 @@ int hashed_istreambuf::underflow() {
   if (gptr() == egptr()) {
     BlockHeader header;
     src_.read(reinterpret_cast<char*>(&header), sizeof(BlockHeader));
+    if (!src_.good())
+      throw IoError("Truncated block header.");
 
     if (header.block_index != block_index_)
       throw IoError("Block index mismatch.");
     block_index_++;
 
     block_.clear();
-    std::generate_n(std::back_inserter(block_),
-                    header.block_size,
-                    [&]() { return src_.get(); });
+    for (uint32_t i = 0; i < header.block_size && src_.good(); ++i)
+      block_.push_back(static_cast<char>(src_.get()));
+    if (!src_.good())
+      throw IoError("Truncated block.");
 
     if (header.block_size == 0) {
       if (header.block_hash != kEmptyHash)
-- 
2.43.0


From 65ccc691f518ff15f4bd47a6d455e11bbfe3ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 11/34] fix: read gzip streams to their end and detect
 truncation

An inflate call that consumes input without producing output was taken for
the end of the stream, so some valid streams were cut short, and a stream
that ended early was taken for a complete one.
---
 src/stream.cc | 47 ++++++++++++++++++++++++++++-------------------
 src/stream.hh |  1 +
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index b1d4030..7206bc5 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -145,36 +145,45 @@ gzip_istreambuf::~gzip_istreambuf() {
 
 int gzip_istreambuf::underflow() {
   if (gptr() == egptr()) {
-    // Check if we need to feed the z-stream more input data.
-    if (z_stream_.avail_in == 0) {
-      if (!src_.good())
+    std::size_t output_bytes = 0;
+
+    // The decompressor may consume input without producing any output so we
+    // need to continue until there's output or until the stream has ended.
+    while (output_bytes == 0) {
+      if (stream_end_)
         return std::char_traits<char>::eof();
 
-      src_.read(input_.data(), input_.size());
+      // Check if we need to feed the z-stream more input data.
+      if (z_stream_.avail_in == 0) {
+        if (src_.good()) {
+          src_.read(input_.data(), input_.size());
 
-      z_stream_.avail_in = src_.gcount();
-      z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
+          z_stream_.avail_in = src_.gcount();
+          z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
+        }
 
-      if (z_stream_.avail_in < 1)
-        return std::char_traits<char>::eof();
-    }
+        if (z_stream_.avail_in < 1)
+          throw IoError("Truncated gzip stream.");
+      }
 
-    z_stream_.avail_out = output_.size();
-    z_stream_.next_out = reinterpret_cast<uint8_t*>(output_.data());
+      z_stream_.avail_out = output_.size();
+      z_stream_.next_out = reinterpret_cast<uint8_t*>(output_.data());
 
-    int res = inflate(&z_stream_, Z_NO_FLUSH);
-    assert(res != Z_STREAM_ERROR);
-    if (res < 0) {
-      throw IoError(Format() << "Gzip inflation error (" << res << ").");
+      int res = inflate(&z_stream_, Z_NO_FLUSH);
+      assert(res != Z_STREAM_ERROR);
+      if (res == Z_STREAM_END) {
+        stream_end_ = true;
+      } else if (res != Z_OK) {
+        throw IoError(Format() << "Gzip inflation error (" << res << ").");
+      }
+
+      output_bytes = output_.size() - z_stream_.avail_out;
     }
 
-    std::size_t output_bytes = output_.size() - z_stream_.avail_out;
     setg(output_.data(), output_.data(), output_.data() + output_bytes);
   }
 
-  return gptr() == egptr() ?
-      std::char_traits<char>::eof() :
-      std::char_traits<char>::to_int_type(*gptr());
+  return std::char_traits<char>::to_int_type(*gptr());
 }
 
 gzip_ostreambuf::gzip_ostreambuf(std::ostream& dst) :
diff --git a/src/stream.hh b/src/stream.hh
index 86496df..4962a3f 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -151,6 +151,7 @@ class gzip_istreambuf final :
 
   std::istream& src_;
   z_stream z_stream_;
+  bool stream_end_ = false;
 
   /** Input buffer for feeding the decompressor. */
   std::array<char, kBufferSize> input_ = { { 0 } };
-- 
2.43.0


From ddc8721d0e10d8ba5a8b446a76424c1b70caab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 12/34] fix: verify the block stream of compressed KDBX files
 to its end

Errors in blocks after the end of the compressed data, such as a corrupt
end-of-stream block, were not noticed.
---
 src/kdbx.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 670608d..118996f 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1099,6 +1099,12 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
     std::istream gzip_stream(&gzip_streambuf);
 
     ParseXml(gzip_stream, obfuscator, *db.get());
+
+    // The compressed stream may end before the block stream does, or hide an
+    // error in it.
+    hashed_stream.ignore(std::numeric_limits<std::streamsize>::max());
+    if (hashed_stream.bad())
+      throw IoError("Read error.");
   } else {
     ParseXml(hashed_stream, obfuscator, *db.get());
   }
-- 
2.43.0


From 33a915975ae3592198f5f9b919574b27b5d19da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 13/34] fix: keep all bytes of compressed KDBX binaries

Compressed binaries were read as a zero-terminated string, which cut them
at the first zero byte and refused to read empty ones.
---
 src/kdbx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 118996f..b6b38bc 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -297,8 +297,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
           gzip_istreambuf gzip_streambuf(raw_stream);
           std::istream gzip_stream(&gzip_streambuf);
 
+          std::vector<char> raw = consume<std::vector<char>>(gzip_stream);
           data = protect<std::string>(
-              consume<std::string>(gzip_stream),
+              std::string(raw.begin(), raw.end()),
               bin_node.attribute("ProtectedInMemory").as_bool());
         } else {
           data = protect<std::string>(
-- 
2.43.0


From 70cc037a56a6b9ba8ce1d7653943ee216dbdb480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 14/34] fix: import and export inline KDBX attachments

The data and attributes of attachments that are stored inside the entry
were looked up in the wrong element, so such attachments were always
imported empty. Protected data was exported unprotected.
---
 src/kdbx.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index b6b38bc..09b27d0 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -563,23 +563,24 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       } else {
         protect<std::string> prot_val;
 
-        if (bin_node.attribute("Protected").as_bool()) {
+        if (val_node.attribute("Protected").as_bool()) {
           prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(bin_node.text().as_string())), true);
+              base64_decode(val_node.text().as_string())), true);
         } else {
-          if (bin_node.attribute("Compressed").as_bool()) {
+          if (val_node.attribute("Compressed").as_bool()) {
             std::stringstream raw_stream(
-                base64_decode(bin_node.text().as_string()));
+                base64_decode(val_node.text().as_string()));
             gzip_istreambuf gzip_streambuf(raw_stream);
             std::istream gzip_stream(&gzip_streambuf);
 
+            std::vector<char> raw = consume<std::vector<char>>(gzip_stream);
             prot_val = protect<std::string>(
-                consume<std::string>(gzip_stream),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                std::string(raw.begin(), raw.end()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           } else {
             prot_val = protect<std::string>(
-                base64_decode(bin_node.text().as_string()),
-                bin_node.attribute("ProtectedInMemory").as_bool());
+                base64_decode(val_node.text().as_string()),
+                val_node.attribute("ProtectedInMemory").as_bool());
           }
         }
 
@@ -706,8 +707,15 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
     }
 
     if (!found_in_pool) {
-      bin_node.append_child("Value").text().set(base64_encode(
-          attachment->binary()->data()).c_str());
+      const protect<std::string>& data = attachment->binary()->data();
+
+      pugi::xml_node val_node = bin_node.append_child("Value");
+      if (data.is_protected()) {
+        val_node.append_attribute("Protected").set_value("True");
+        val_node.text().set(base64_encode(obfuscator.Process(*data)).c_str());
+      } else {
+        val_node.text().set(base64_encode(*data).c_str());
+      }
     }
   }
 
-- 
2.43.0


From 7a00821cdb9066292f15039457c03f735180eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 15/34] fix: let the recycle bin and template group refer to
 the group tree

They were resolved before any group was parsed, so they always referred to
empty stand-in groups instead of the groups in the tree.
---
 src/kdbx.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 09b27d0..7673417 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -237,15 +237,9 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->memory_protection().set_notes(
       mp_node.child("ProtectNotes").text().as_bool());
 
-  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
-    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
-  else
-    meta->set_recycle_bin(std::shared_ptr<Group>());
   meta->set_recycle_bin_changed(ParseDateTime(
       meta_node.child_value("RecycleBinChanged")));
 
-  meta->set_entry_templates(GetGroup(
-      meta_node.child_value("EntryTemplatesGroup")));
   meta->set_entry_templates_changed(ParseDateTime(
       meta_node.child_value("EntryTemplatesGroupChanged")));
 
@@ -254,9 +248,10 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
   meta->set_history_max_size(
       meta_node.child("HistoryMaxSize").text().as_llong(-1));
 
-  // Note that we're not parsing "LastSelectedGroup" and "LastTopVisibleGroup"
-  // here. They will be parsed later by ParseXml(). The reason is that we need
-  // to parse all groups first.
+  // Note that we're not parsing the elements that refer to groups here
+  // ("RecycleBinUUID", "EntryTemplatesGroup", "LastSelectedGroup" and
+  // "LastTopVisibleGroup"). They will be parsed later by ParseXml(). The reason
+  // is that we need to parse all groups first.
 
   pugi::xml_node icons_node = meta_node.child("CustomIcons");
   if (icons_node) {
@@ -888,6 +883,12 @@ void KdbxFile::ParseXml(std::istream& src,
   } else {
     assert(false);
   }
+
+  if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
+    meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
+
+  meta->set_entry_templates(GetGroup(
+      meta_node.child_value("EntryTemplatesGroup")));
 }
 
 #ifdef DEBUG
-- 
2.43.0


From 358e846f8583d6f0e1a6497ea2c878a3194fb604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 16/34] fix: don't abort on absent or malformed optional KDBX
 elements

Missing or malformed dates, icons and groups that don't exist, custom data
without a key and a database without template group all have a sensible
fallback already, which was shadowed by asserts on the input.
---
 src/kdbx.cc | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 7673417..c81a5fb 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -144,14 +144,10 @@ std::time_t KdbxFile::ParseDateTime(const char* text) const {
   
   std::tm tm;
   char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
-  if (res == nullptr) {
-    assert(false);
+  if (res == nullptr)
     return 0;
-  }
 
   // Format is expected to always be in UTC.
-  assert(*res == 'Z' || *res == '\0');
-
   return timegm(&tm);
 }
 
@@ -317,10 +313,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         item_node = item_node.next_sibling("Item")) {
       std::string key = item_node.child_value("Key");
       std::string value = item_node.child_value("Value");
-      if (key.empty()) {
-        assert(false);
+      if (key.empty())
         continue;
-      }
 
       meta->AddField(key, value);
     }
@@ -384,8 +378,6 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
     meta_node.append_child("EntryTemplatesGroup").text().set(base64_encode(
         meta->entry_templates()->uuid().begin(),
         meta->entry_templates()->uuid().end()).c_str());
-  } else {
-    assert(false);
   }
   meta_node.append_child("EntryTemplatesGroupChanged").text().set(
       WriteDateTime(meta->entry_templates_changed()).c_str());
@@ -473,11 +465,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
 
   if (entry_node.child("CustomIconUUID")) {
     auto it = icon_pool_.find(entry_node.child_value("CustomIconUUID"));
-    if (it != icon_pool_.end()) {
+    if (it != icon_pool_.end())
       entry->set_custom_icon(it->second);
-    } else {
-      assert(false);
-    }
   }
  
   pugi::xml_node times_node = entry_node.child("Times");
@@ -738,11 +727,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
   if (group_node.child("CustomIconUUID")) {
     auto icon = icon_pool_.find(group_node.child_value("CustomIconUUID"));
-    if (icon != icon_pool_.end()) {
+    if (icon != icon_pool_.end())
       group->set_custom_icon(icon->second);
-    } else {
-      assert(false);
-    }
   }
 
   pugi::xml_node times_node = group_node.child("Times");
@@ -871,18 +857,12 @@ void KdbxFile::ParseXml(std::istream& src,
   // have to wait until every group is parsed before parsing the final parts of
   // the meta data.
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
-  if (it != group_pool_.end()) {
+  if (it != group_pool_.end())
     meta->set_last_selected_group(it->second);
-  } else {
-    assert(false);
-  }
 
   it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
-  if (it != group_pool_.end()) {
+  if (it != group_pool_.end())
     meta->set_last_visible_group(it->second);
-  } else {
-    assert(false);
-  }
 
   if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
     meta->set_recycle_bin(GetGroup(meta_node.child_value("RecycleBinUUID")));
-- 
2.43.0


From b299a711e907310e0f823a36c81255fdfe0a1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 17/34] fix: resolve the last visible entry only if the file
 names one

Without the element, an entry with the UUID of its group was taken for it,
and entries with duplicate UUIDs aborted the import. UUIDs that were too
short were padded with uninitialized memory.
---
 src/kdbx.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index c81a5fb..155c95c 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -127,7 +127,7 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   if (it != group_pool_.end())
     return it->second;
 
-  std::array<uint8_t, 16> uuid;
+  std::array<uint8_t, 16> uuid = { 0 };
   base64_decode(uuid_str, bounds_checked(uuid));
 
   std::shared_ptr<Group> group = std::make_shared<Group>();
@@ -258,7 +258,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
       if (data.empty())
         continue;
 
-      std::array<uint8_t, 16> uuid;
+      std::array<uint8_t, 16> uuid = { 0 };
       base64_decode(icon_node.child_value("UUID"), bounds_checked(uuid));
 
       std::shared_ptr<Icon> icon = std::make_shared<Icon>(uuid, data);
@@ -755,8 +755,9 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
   group->set_search(group_node.child("EnableSearching").text().as_bool());
 
-  base64_decode(group_node.child_value("LastTopVisibleEntry"),
-                bounds_checked(uuid));
+  std::string last_entry_str = group_node.child_value("LastTopVisibleEntry");
+  std::array<uint8_t, 16> last_entry_uuid = { 0 };
+  base64_decode(last_entry_str, bounds_checked(last_entry_uuid));
 
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
@@ -764,8 +765,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
 
-    if (entry_uuid == uuid) {
-      assert(group->last_visible_entry().expired());
+    if (!last_entry_str.empty() && entry_uuid == last_entry_uuid &&
+        group->last_visible_entry().expired()) {
       group->set_last_visible_entry(entry);
     }
   }
-- 
2.43.0


From 95a0f14bdd6a7760dca5000374949750764c3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 18/34] fix: import KDBX attachments without a value as empty

Such attachments had no binary at all, and exporting or dumping them
crashed. Likewise don't look up groups by an empty UUID.
---
 src/kdbx.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 155c95c..48f6d31 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -531,7 +531,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
   for (pugi::xml_node bin_node = entry_node.child("Binary"); bin_node;
       bin_node = bin_node.next_sibling("Binary")) {
     std::string key = bin_node.child_value("Key");
-    std::shared_ptr<Binary> binary;
+    std::shared_ptr<Binary> binary = std::make_shared<Binary>(
+        protect<std::string>(std::string(), false));
 
     pugi::xml_node val_node = bin_node.child("Value");
     if (val_node) {
@@ -857,12 +858,14 @@ void KdbxFile::ParseXml(std::istream& src,
   // When first parsing the meta data we haven't yet parsed all groups so we
   // have to wait until every group is parsed before parsing the final parts of
   // the meta data.
-  auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
-  if (it != group_pool_.end())
+  std::string uuid_str = meta_node.child_value("LastSelectedGroup");
+  auto it = group_pool_.find(uuid_str);
+  if (!uuid_str.empty() && it != group_pool_.end())
     meta->set_last_selected_group(it->second);
 
-  it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
-  if (it != group_pool_.end())
+  uuid_str = meta_node.child_value("LastTopVisibleGroup");
+  it = group_pool_.find(uuid_str);
+  if (!uuid_str.empty() && it != group_pool_.end())
     meta->set_last_visible_group(it->second);
 
   if (meta_node.child("RecycleBinEnabled").text().as_bool(true))
-- 
2.43.0


From 3a9fbb27a725fa8db23a62011d802fab23225dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 19/34] fix: keep carriage returns in KDBX texts

---
 src/kdbx.cc | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 48f6d31..d8c8ead 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -911,7 +911,30 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
   WriteMeta(meta_node, obfuscator, db.meta());
   WriteGroup(group_node, obfuscator, db.root());
 
-  doc.save(dst);
+  // XML readers turn literal carriage returns into line feeds, they only
+  // survive as character references.
+  struct XmlWriter : pugi::xml_writer {
+    std::ostream& dst;
+
+    XmlWriter(std::ostream& new_dst) : dst(new_dst) {}
+
+    virtual void write(const void* data, std::size_t size) override {
+      const char* it = static_cast<const char*>(data);
+      const char* end = it + size;
+      while (it != end) {
+        const char* cr = std::find(it, end, '\r');
+        dst.write(it, cr - it);
+        if (cr != end) {
+          dst << "&#13;";
+          ++cr;
+        }
+        it = cr;
+      }
+    }
+  };
+
+  XmlWriter writer(dst);
+  doc.save(writer);
 }
 
 std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
-- 
2.43.0


From 28e5bbb16aad588ba9c2c05f82cea547fcca73a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 20/34] fix: reject unknown KDBX compression method 2

---
 src/kdbx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index d8c8ead..6918dba 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -998,7 +998,7 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
         break;
       case KdbxHeaderField::kCompressionFlags: {
         uint32_t comp_flags = consume<uint32_t>(field);
-        if (comp_flags > static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
+        if (comp_flags >= static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
           throw FormatError("Unknown compression method in KDBX.");
         db->set_compress(comp_flags ==
             static_cast<uint32_t>(kKdbxCompressionFlags::kGzip));
-- 
2.43.0


From 0d273105810277711f4c18ca20fa3e4cb4ccf634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 21/34] fix: compare the lengths of object lists

---
 src/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hh b/src/util.hh
index 7fb2c4f..1ddf471 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -51,7 +51,7 @@ inline T clamp(T min, T max, T val) {
 template <typename T>
 inline bool indirect_equal(const std::vector<T>& v0,
                            const std::vector<T>& v1) {
-  return std::equal(v0.begin(), v0.end(), v1.begin(),
+  return v0.size() == v1.size() && std::equal(v0.begin(), v0.end(), v1.begin(),
       [](const T& v0, const T& v1) {
         return *v0 == *v1;
       });
-- 
2.43.0


From 1dc49feee0a9620a0281304f3b53e23d84d4e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 22/34] fix: keep the numeric auto-type obfuscation setting

---
 src/entry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entry.hh b/src/entry.hh
index 938adba..1b8d9b1 100644
--- a/src/entry.hh
+++ b/src/entry.hh
@@ -87,7 +87,7 @@ class Entry final {
     void set_enabled(bool enabled) { enabled_ = enabled; }
 
     uint32_t obfuscation() const { return obfuscation_; }
-    void set_obfuscation(bool obfuscation) { obfuscation_ = obfuscation; }
+    void set_obfuscation(uint32_t obfuscation) { obfuscation_ = obfuscation; }
 
     const std::string& sequence() const { return sequence_; }
     void set_sequence(const std::string& sequence) { sequence_ = sequence; }
-- 
2.43.0


From 7a4fcc81f1d95cf2d973ab78c1776c647769285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 23/34] fix: initialize the metadata's group change times

---
 src/metadata.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hh b/src/metadata.hh
index 5c8d0f0..778f8be 100644
--- a/src/metadata.hh
+++ b/src/metadata.hh
@@ -101,9 +101,9 @@ class Metadata final {
   int64_t master_key_change_force_ = -1;
   MemoryProtection memory_protection_;
   std::shared_ptr<Group> recycle_bin_;
-  std::time_t recycle_bin_changed_;
+  std::time_t recycle_bin_changed_ = 0;
   std::shared_ptr<Group> entry_templates_;
-  std::time_t entry_templates_changed_;
+  std::time_t entry_templates_changed_ = 0;
   int32_t history_max_items_ = -1;
   int64_t history_max_size_ = -1;
   std::weak_ptr<Group> last_selected_group_;
-- 
2.43.0


From 3e9c47db010769f875092d1084794c9d0e1725da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 24/34] fix: reject malformed base64 padding

---
 src/base64.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base64.hh b/src/base64.hh
index 4bf2e0a..7fba3c9 100644
--- a/src/base64.hh
+++ b/src/base64.hh
@@ -78,6 +78,13 @@ void base64_decode(const std::string& src, OutputIterator result) {
   if (src_trimmed.size() % 4 != 0)
     throw FormatError("Base64 data must be a multiple of four in size.");
 
+  // Only the last one or two characters may be padding.
+  std::size_t pad_pos = src_trimmed.find('=');
+  if (pad_pos != std::string::npos &&
+      (src_trimmed.size() - pad_pos > 2 || src_trimmed.back() != '=')) {
+    throw FormatError("Illegal padding in base64 stream.");
+  }
+
   uint32_t bits24 = 0;
   std::size_t i = 0;
 
-- 
2.43.0


From c8d480d690a4e933512d28196aa0798ad464905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 25/34] fix: leave the key as it is when a key file is invalid

---
 src/key.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 2156608..3a7206e 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -107,15 +107,22 @@ void Key::SetKeyFile(const std::string& path) {
   if (data.size() != 64)
     throw FormatError("Unknown key file format.");
 
-  for (std::size_t i = 0; i < key_.keyfile_key_.size(); ++i) {
-    char c[2] = { data[i * 2], data[i * 2 + 1] };
+  // Leave the key as it is unless the complete file is valid.
+  std::array<uint8_t, 32> keyfile_key;
+  for (std::size_t i = 0; i < keyfile_key.size(); ++i) {
+    unsigned char c[2] = {
+      static_cast<unsigned char>(data[i * 2]),
+      static_cast<unsigned char>(data[i * 2 + 1])
+    };
 
     if (!std::isxdigit(c[0]) || !std::isxdigit(c[1]))
       throw FormatError("Unknown key file format.");
 
-    uint8_t v = std::stoi(std::string(c, 2), 0, 16);
-    key_.keyfile_key_[i] = v;
+    uint8_t v = std::stoi(std::string(c, c + 2), 0, 16);
+    keyfile_key[i] = v;
   }
+
+  key_.keyfile_key_ = keyfile_key;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
-- 
2.43.0


From 9fc17a8822161356fdbe08d1e3106a2e6f2d6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 26/34] fix: apply more than 2^32 key transformation rounds

---
 src/key.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index 3a7206e..33f6d9e 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -131,7 +131,7 @@ std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
   AesCipher cipher(seed);
 
   std::array<uint8_t, 32> transformed_key = key_.Resolve(resolution);
-  for (uint32_t i = 0; i < rounds; ++i)
+  for (uint64_t i = 0; i < rounds; ++i)
     transformed_key = encrypt_ecb(transformed_key, cipher);
 
   SHA256_CTX sha256;
-- 
2.43.0


From 5991fe890ed585631ff90277e69fe02e154b0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 27/34] fix: don't repeat generated UUIDs

---
 src/util.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 99e249f..2e8e2fa 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -33,15 +33,16 @@ std::string time_to_str(const std::time_t& time) {
 }
 
 std::array<uint8_t, 16> generate_uuid() {
+  // A pseudo random engine seeded with a single 32-bit number would repeat
+  // identifiers after some ten thousand objects.
   std::random_device rd;
-  std::mt19937 engine(rd());
 
   std::uniform_int_distribution<uint8_t> uniform_dist(0, 255);
 
   // Fill block with random values.
   std::array<uint8_t, 16> uuid;
   for (std::size_t i = 0; i < 16; ++i)
-    uuid[i] = uniform_dist(engine);
+    uuid[i] = uniform_dist(rd);
 
   return uuid;
 }
-- 
2.43.0


From 50e290e7d189295039b2e1a39d6e238a0c0505b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 28/34] fix: don't derive random arrays from a 32-bit seed

---
 src/random.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/random.hh b/src/random.hh
index e8fd1a2..74c1575 100644
--- a/src/random.hh
+++ b/src/random.hh
@@ -49,14 +49,13 @@ class RandomObfuscator {
 template <std::size_t N>
 std::array<uint8_t, N> random_array() {
   std::random_device rd;
-  std::mt19937 engine(rd());
 
   std::uniform_int_distribution<uint8_t> uniform_dist(0, 255);
 
   // Fill block with random values.
   std::array<uint8_t, N> array;
   for (std::size_t i = 0; i < N; ++i)
-    array[i] = uniform_dist(engine);
+    array[i] = uniform_dist(rd);
 
   return array;
 }
-- 
2.43.0


From 0effeb0701b3381967763414f718e9fc07ccad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 29/34] fix: escape texts in JSON dumps

---
 src/entry.cc | 16 ++++++++--------
 src/group.cc |  4 ++--
 src/util.cc  | 20 ++++++++++++++++++++
 src/util.hh  |  8 ++++++++
 4 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index 3eed372..c290e9e 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -67,10 +67,10 @@ std::string Entry::Attachment::ToJson() const {
 
   json << "{";
   if (!name_.empty())
-    json << "\"name\":\"" << name_ << "\"";
-  if (!binary_->Empty()) {
+    json << "\"name\":\"" << json_escape(name_) << "\"";
+  if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
-        *binary_->data() << "\"";
+        json_escape(*binary_->data()) << "\"";
   }
   json << "}";
 
@@ -83,15 +83,15 @@ std::string Entry::ToJson() const {
   json << "{";
   json << "\"icon\":" << icon_;
   if (!title_->empty())
-    json << ",\"title\":\"" << *title_ << "\"";
+    json << ",\"title\":\"" << json_escape(*title_) << "\"";
   if (!url_->empty())
-    json << ",\"url\":\"" << *url_ << "\"";
+    json << ",\"url\":\"" << json_escape(*url_) << "\"";
   if (!username_->empty())
-    json << ",\"username\":\"" << *username_ << "\"";
+    json << ",\"username\":\"" << json_escape(*username_) << "\"";
   if (!password_->empty())
-    json << ",\"password\":\"" << *password_ << "\"";
+    json << ",\"password\":\"" << json_escape(*password_) << "\"";
   if (!notes_->empty())
-    json << ",\"notes\":\"" << *notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(*notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/group.cc b/src/group.cc
index fbf811f..8ac8976 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -59,9 +59,9 @@ std::string Group::ToJson() const {
   if (custom_icon_.lock())
     json << ",\"custom_icon\":\"" << true << "\"";
   if (!name_.empty())
-    json << ",\"name\":\"" << name_ << "\"";
+    json << ",\"name\":\"" << json_escape(name_) << "\"";
   if (!notes_.empty())
-    json << ",\"notes\":\"" << notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/util.cc b/src/util.cc
index 2e8e2fa..20558f4 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -47,4 +47,24 @@ std::array<uint8_t, 16> generate_uuid() {
   return uuid;
 }
 
+std::string json_escape(const std::string& str) {
+  static const char kHex[] = "0123456789abcdef";
+
+  std::string escaped;
+  for (char c : str) {
+    if (c == '"' || c == '\\') {
+      escaped.push_back('\\');
+      escaped.push_back(c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      escaped += "\\u00";
+      escaped.push_back(kHex[c >> 4]);
+      escaped.push_back(kHex[c & 0xf]);
+    } else {
+      escaped.push_back(c);
+    }
+  }
+
+  return escaped;
+}
+
 }   // namespace keepass
diff --git a/src/util.hh b/src/util.hh
index 1ddf471..be1e202 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -103,4 +103,12 @@ std::string time_to_str(const std::time_t& time);
 
 std::array<uint8_t, 16> generate_uuid();
 
+/**
+ * Escapes a string for use inside a JSON string literal.
+ * @param [in] str String to escape.
+ * @return String without quotation marks, backslashes and control characters
+ *         that are not part of an escape sequence.
+ */
+std::string json_escape(const std::string& str);
+
 }   // namespace keepass
-- 
2.43.0


From e0af53e515a92a637e54f43ce4fce25ace589d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 30/34] fix: unmask protected KDBX values in document order

---
 src/kdbx.cc | 57 ++++++++++++++++++++++++++++++++---------------------
 src/kdbx.hh | 13 ++++--------
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 6918dba..456f1a3 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -163,15 +163,14 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
 
 protect<std::string> KdbxFile::ParseProtectedString(
     const pugi::xml_node& node,
-    const char* name,
-    RandomObfuscator& obfuscator) const {
+    const char* name) const {
   pugi::xml_node val_node = node.child(name);
   if (val_node) {
     bool prot = val_node.attribute("Protected").as_bool();
     if (prot) {
       std::string val = base64_decode(val_node.text().as_string());
       if (!val.empty())
-        return protect<std::string>(obfuscator.Process(val), true);
+        return protect<std::string>(val, true);
     }
 
     return protect<std::string>(
@@ -193,8 +192,8 @@ void KdbxFile::WriteProtectedString(pugi::xml_node& node,
   }
 }
 
-std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
-                                              RandomObfuscator& obfuscator) {
+std::shared_ptr<Metadata> KdbxFile::ParseMeta(
+    const pugi::xml_node& meta_node) {
   std::shared_ptr<Metadata> meta = std::make_shared<Metadata>();
 
   // Parse header hash and store in member for checking later.
@@ -278,8 +277,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
 
       bool compressed = false;
       if (bin_node.attribute("Protected").as_bool()) {
-        data = protect<std::string>(obfuscator.Process(
-            base64_decode(bin_node.text().as_string())), true);
+        data = protect<std::string>(
+            base64_decode(bin_node.text().as_string()), true);
       } else {
         if (bin_node.attribute("Compressed").as_bool()) {
           compressed = true;
@@ -450,8 +449,7 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 
 std::shared_ptr<Entry> KdbxFile::ParseEntry(
     const pugi::xml_node& entry_node,
-    std::array<uint8_t, 16>& entry_uuid,
-    RandomObfuscator& obfuscator) {
+    std::array<uint8_t, 16>& entry_uuid) {
   std::shared_ptr<Entry> entry = std::make_shared<Entry>();
 
   base64_decode(entry_node.child_value("UUID"), bounds_checked(entry_uuid));
@@ -509,8 +507,7 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
   for (pugi::xml_node str_node = entry_node.child("String"); str_node;
       str_node = str_node.next_sibling("String")) {
     std::string key = str_node.child_value("Key");
-    protect<std::string> val = ParseProtectedString(
-        str_node, "Value", obfuscator);
+    protect<std::string> val = ParseProtectedString(str_node, "Value");
 
     if (key == "Title") {
       entry->set_title(val);
@@ -549,8 +546,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
         protect<std::string> prot_val;
 
         if (val_node.attribute("Protected").as_bool()) {
-          prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(val_node.text().as_string())), true);
+          prot_val = protect<std::string>(
+              base64_decode(val_node.text().as_string()), true);
         } else {
           if (val_node.attribute("Compressed").as_bool()) {
             std::stringstream raw_stream(
@@ -587,9 +584,7 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
     for (pugi::xml_node subentry_node = history_node.child("Entry"); subentry_node;
         subentry_node = subentry_node.next_sibling("Entry")) {
       std::array<uint8_t, 16> subentry_uuid = { 0 };
-      entry->AddHistoryEntry(ParseEntry(subentry_node,
-                                        subentry_uuid,
-                                        obfuscator));
+      entry->AddHistoryEntry(ParseEntry(subentry_node, subentry_uuid));
     }
   }
 
@@ -713,8 +708,7 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
 }
 
 std::shared_ptr<Group> KdbxFile::ParseGroup(
-    const pugi::xml_node& group_node,
-    RandomObfuscator& obfuscator) {
+    const pugi::xml_node& group_node) {
   std::shared_ptr<Group> group = std::make_shared<Group>();
   group_pool_.insert(std::make_pair(group_node.child_value("UUID"), group));
 
@@ -763,7 +757,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
     std::array<uint8_t, 16> entry_uuid = { 0 };
-    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
+    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid);
     group->AddEntry(entry);
 
     if (!last_entry_str.empty() && entry_uuid == last_entry_uuid &&
@@ -774,7 +768,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
   for (pugi::xml_node subgroup_node = group_node.child("Group"); subgroup_node;
       subgroup_node = subgroup_node.next_sibling("Group")) {
-    group->AddGroup(ParseGroup(subgroup_node, obfuscator));
+    group->AddGroup(ParseGroup(subgroup_node));
   }
 
   return group;
@@ -837,6 +831,25 @@ void KdbxFile::ParseXml(std::istream& src,
   if (!doc.load(src, pugi::parse_default | pugi::parse_trim_pcdata))
     throw FormatError("Malformed XML in KDBX.");
 
+  // Values are masked in document order, which is not necessarily the order in
+  // which they are parsed. Unmask them before parsing anything.
+  struct Unmasker : pugi::xml_tree_walker {
+    RandomObfuscator& obfuscator;
+
+    Unmasker(RandomObfuscator& new_obfuscator) : obfuscator(new_obfuscator) {}
+
+    virtual bool for_each(pugi::xml_node& node) override {
+      if (node.attribute("Protected").as_bool() && node.text()) {
+        node.text().set(base64_encode(obfuscator.Process(
+            base64_decode(node.text().as_string()))).c_str());
+      }
+      return true;
+    }
+  };
+
+  Unmasker unmasker(obfuscator);
+  doc.traverse(unmasker);
+
   pugi::xml_node kpf_node = doc.child("KeePassFile");
   if (!kpf_node)
     throw FormatError("No \"KeePassFile\" element in KDBX XML.");
@@ -849,8 +862,8 @@ void KdbxFile::ParseXml(std::istream& src,
   if (!group_node)
     throw FormatError("No \"Root\" or \"Group\" element in KDBX XML.");
 
-  std::shared_ptr<Metadata> meta = ParseMeta(meta_node, obfuscator);
-  std::shared_ptr<Group> root = ParseGroup(group_node, obfuscator);
+  std::shared_ptr<Metadata> meta = ParseMeta(meta_node);
+  std::shared_ptr<Group> root = ParseGroup(group_node);
 
   db.set_meta(meta);
   db.set_root(root);
diff --git a/src/kdbx.hh b/src/kdbx.hh
index 4d8ebbd..95e2c12 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -67,14 +67,12 @@ class KdbxFile final {
 
   protect<std::string> ParseProtectedString(
       const pugi::xml_node& node,
-      const char* name,
-      RandomObfuscator& obfuscator) const;
+      const char* name) const;
   void WriteProtectedString(pugi::xml_node& node,
                             const protect<std::string>& str,
                             RandomObfuscator& obfuscator) const;
 
-  std::shared_ptr<Metadata> ParseMeta(const pugi::xml_node& meta_node,
-                                      RandomObfuscator& obfuscator);
+  std::shared_ptr<Metadata> ParseMeta(const pugi::xml_node& meta_node);
   void WriteMeta(pugi::xml_node& meta_node, RandomObfuscator& obfuscator,
                  std::shared_ptr<Metadata> meta);
 
@@ -82,18 +80,15 @@ class KdbxFile final {
    * Parses a an entry in the XML tree.
    * @param [in] entry_node Entry XML node.
    * @param [out] entry_uuid Entry UUID.
-   * @param [in] obfuscator Random stream obfuscator.
    * @return Pointer to entry object.
    */
   std::shared_ptr<Entry> ParseEntry(const pugi::xml_node& entry_node,
-                                    std::array<uint8_t, 16>& entry_uuid,
-                                    RandomObfuscator& obfuscator);
+                                    std::array<uint8_t, 16>& entry_uuid);
   void WriteEntry(pugi::xml_node& entry_node,
                   RandomObfuscator& obfuscator,
                   std::shared_ptr<Entry> entry);
 
-  std::shared_ptr<Group> ParseGroup(const pugi::xml_node& group_node,
-                                    RandomObfuscator& obfuscator);
+  std::shared_ptr<Group> ParseGroup(const pugi::xml_node& group_node);
   void WriteGroup(pugi::xml_node& group_node,
                   RandomObfuscator& obfuscator,
                   std::shared_ptr<Group> group);
-- 
2.43.0


From 81c213c5b11ee46d2328c561bcb14a97bfdadd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 31/34] fix: use key files whose key is all zeros

---
 src/key.cc | 13 +++++++------
 src/key.hh |  2 ++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 33f6d9e..c04988a 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -33,23 +33,21 @@ namespace keepass {
 
 std::array<uint8_t, 32> Key::CompositeKey::Resolve(
     SubKeyResolution resolution) const {
-  static const std::array<uint8_t, 32> kEmptyKey = { { 0 } };
-
   if (resolution == SubKeyResolution::kHashSubKeys) {
       std::array<uint8_t, 32> key;
 
       SHA256_CTX sha256;
       SHA256_Init(&sha256);
-      if (password_key_ != kEmptyKey)
+      if (has_password_)
           SHA256_Update(&sha256, password_key_.data(), password_key_.size());
-      if (keyfile_key_ != kEmptyKey)
+      if (has_keyfile_)
           SHA256_Update(&sha256, keyfile_key_.data(), keyfile_key_.size());
       SHA256_Final(key.data(), &sha256);
 
       return key;
   } else {
-    if (password_key_ != kEmptyKey) {
-      if (keyfile_key_ != kEmptyKey) {
+    if (has_password_) {
+      if (has_keyfile_) {
         std::array<uint8_t, 32> key;
 
         SHA256_CTX sha256;
@@ -78,6 +76,7 @@ void Key::SetPassword(const std::string& password) {
   SHA256_Update(&sha256, reinterpret_cast<const uint8_t*>(password.c_str()),
                 password.size());
   SHA256_Final(key_.password_key_.data(), &sha256);
+  key_.has_password_ = true;
 }
 
 void Key::SetKeyFile(const std::string& path) {
@@ -94,6 +93,7 @@ void Key::SetKeyFile(const std::string& path) {
       throw FormatError("Invalid key size in key file.");
 
     std::copy(key_str.begin(), key_str.end(), key_.keyfile_key_.begin());
+    key_.has_keyfile_ = true;
     return;
   }
 
@@ -123,6 +123,7 @@ void Key::SetKeyFile(const std::string& path) {
   }
 
   key_.keyfile_key_ = keyfile_key;
+  key_.has_keyfile_ = true;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
diff --git a/src/key.hh b/src/key.hh
index f85c2cf..0e8b551 100644
--- a/src/key.hh
+++ b/src/key.hh
@@ -45,6 +45,8 @@ class Key final {
   struct CompositeKey {
     std::array<uint8_t, 32> password_key_ = { { 0 } };
     std::array<uint8_t, 32> keyfile_key_ = { { 0 } };
+    bool has_password_ = false;
+    bool has_keyfile_ = false;
 
     std::array<uint8_t, 32> Resolve(SubKeyResolution resolution) const;
   } key_;
-- 
2.43.0


From 859cf73d27c638c6ae5a7cfd2d290aac4a96ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 32/34] fix: convert times without the process-wide buffers of
 gmtime() and localtime()

Exporting or dumping databases in two threads at the same time wrote the
times of one database into the other, although the threads shared no
object.
---
 src/kdb.cc  | 19 +++++++++++--------
 src/kdbx.cc |  7 +++++--
 src/util.cc |  8 +++++---
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 8d99f40..3ecbf2f 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -80,14 +80,17 @@ struct KdbTime {
     if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
-      std::tm* time_ptr = std::localtime(&time);
-
-      uint32_t year = time_ptr->tm_year + 1900;
-      uint32_t month = time_ptr->tm_mon + 1;
-      uint32_t day = time_ptr->tm_mday;
-      uint32_t hour = time_ptr->tm_hour;
-      uint32_t minute = time_ptr->tm_min;
-      uint32_t second = time_ptr->tm_sec;
+      // Unlike std::localtime(), this is safe to use in several threads.
+      std::tm local_time = std::tm();
+      tzset();
+      localtime_r(&time, &local_time);
+
+      uint32_t year = local_time.tm_year + 1900;
+      uint32_t month = local_time.tm_mon + 1;
+      uint32_t day = local_time.tm_mday;
+      uint32_t hour = local_time.tm_hour;
+      uint32_t minute = local_time.tm_min;
+      uint32_t second = local_time.tm_sec;
 
       packed[0] = year >> 6;
       packed[1] = ((year & 0x3f) << 2) | (month >> 2);
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 456f1a3..f906c5c 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -155,9 +155,12 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
   if (time == 0)
     return "2999-12-28T22:59:59Z";
 
+  // Unlike std::gmtime(), this is safe to use in several threads.
+  std::tm utc_time = std::tm();
+  gmtime_r(&time, &utc_time);
+
   char buffer[128];
-  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ",
-                std::gmtime(&time));
+  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ", &utc_time);
   return buffer;
 }
 
diff --git a/src/util.cc b/src/util.cc
index 20558f4..d1f14a0 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -24,11 +24,13 @@
 namespace keepass {
 
 std::string time_to_str(const std::time_t& time) {
-  const std::tm* local_time = std::localtime(&time);
-  assert(local_time != nullptr);
+  // Unlike std::localtime(), this is safe to use in several threads.
+  std::tm local_time = std::tm();
+  tzset();
+  localtime_r(&time, &local_time);
 
   char buffer[128];
-  strftime(buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S", local_time);
+  strftime(buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S", &local_time);
   return buffer;
 }
 
-- 
2.43.0


From 9836e40c2856693239d1bb8ec43c8fefa176b4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 33/34] fix: write truth values the way KeePass spells them

---
 src/kdbx.cc | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index f906c5c..0176f08 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -59,6 +59,11 @@ constexpr std::array<uint8_t, 8> kKdbxInnerRandomStreamInitVec = {
   0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a
 };
 
+// KeePass knows no other spellings: it takes "true" and "false" for neither.
+static const char* WriteBool(bool value) {
+  return value ? "True" : "False";
+}
+
 enum class kKdbxCompressionFlags : uint32_t {
   kNone,
   kGzip,
@@ -355,23 +360,23 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 
   pugi::xml_node mp_node = meta_node.append_child("MemoryProtection");
   mp_node.append_child("ProtectTitle").text().set(
-      meta->memory_protection().title());
+      WriteBool(meta->memory_protection().title()));
   mp_node.append_child("ProtectUserName").text().set(
-      meta->memory_protection().username());
+      WriteBool(meta->memory_protection().username()));
   mp_node.append_child("ProtectPassword").text().set(
-      meta->memory_protection().password());
+      WriteBool(meta->memory_protection().password()));
   mp_node.append_child("ProtectURL").text().set(
-      meta->memory_protection().url());
+      WriteBool(meta->memory_protection().url()));
   mp_node.append_child("ProtectNotes").text().set(
-      meta->memory_protection().notes());
+      WriteBool(meta->memory_protection().notes()));
 
   if (meta->recycle_bin()) {
-    meta_node.append_child("RecycleBinEnabled").text().set(true);
+    meta_node.append_child("RecycleBinEnabled").text().set(WriteBool(true));
     meta_node.append_child("RecycleBinUUID").text().set(base64_encode(
         meta->recycle_bin()->uuid().begin(),
         meta->recycle_bin()->uuid().end()).c_str());
   } else {
-    meta_node.append_child("RecycleBinEnabled").text().set(false);
+    meta_node.append_child("RecycleBinEnabled").text().set(WriteBool(false));
   }
   meta_node.append_child("RecycleBinChanged").text().set(WriteDateTime(
       meta->recycle_bin_changed()).c_str());
@@ -624,11 +629,12 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       entry->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       entry->move_time()).c_str());
-  times_node.append_child("Expires").text().set(entry->expires());
+  times_node.append_child("Expires").text().set(WriteBool(entry->expires()));
   times_node.append_child("UsageCount").text().set(entry->usage_count());
 
   pugi::xml_node autotype_node = entry_node.append_child("AutoType");
-  autotype_node.append_child("Enabled").text().set(entry->auto_type().enabled());
+  autotype_node.append_child("Enabled").text().set(
+      WriteBool(entry->auto_type().enabled()));
   autotype_node.append_child("DataTransferObfuscation").text().set(
       entry->auto_type().obfuscation());
   autotype_node.append_child("DefaultSequence").text().set(
@@ -802,14 +808,17 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
       group->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       group->move_time()).c_str());
-  times_node.append_child("Expires").text().set(group->expires());
+  times_node.append_child("Expires").text().set(WriteBool(group->expires()));
   times_node.append_child("UsageCount").text().set(group->usage_count());
 
-  group_node.append_child("IsExpanded").text().set(group->expanded());
+  group_node.append_child("IsExpanded").text().set(
+      WriteBool(group->expanded()));
   group_node.append_child("DefaultAutoTypeSequence").text().set(
       group->default_autotype_sequence().c_str());
-  group_node.append_child("EnableAutoType").text().set(group->autotype());
-  group_node.append_child("EnableSearching").text().set(group->search());
+  group_node.append_child("EnableAutoType").text().set(
+      WriteBool(group->autotype()));
+  group_node.append_child("EnableSearching").text().set(
+      WriteBool(group->search()));
 
   if (auto entry = group->last_visible_entry().lock()) {
     group_node.append_child("LastTopVisibleEntry").text().set(
-- 
2.43.0


From dad2ba9a1f95727b53f3c3eb048f8787b386032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:03 +0000
Subject: [PATCH 34/34] fix: dump numbers the same way whatever the global
 locale

---
 src/entry.cc | 2 ++
 src/group.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/entry.cc b/src/entry.cc
index c290e9e..c4e2d62 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -18,6 +18,7 @@
 
 #include "entry.hh"
 
+#include <locale>
 #include <sstream>
 
 #include "util.hh"
@@ -79,6 +80,7 @@ std::string Entry::Attachment::ToJson() const {
 
 std::string Entry::ToJson() const {
   std::stringstream json;
+  json.imbue(std::locale::classic());
 
   json << "{";
   json << "\"icon\":" << icon_;
diff --git a/src/group.cc b/src/group.cc
index 8ac8976..c19e1fb 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -18,6 +18,7 @@
 
 #include "group.hh"
 
+#include <locale>
 #include <sstream>
 
 #include "util.hh"
@@ -53,6 +54,7 @@ bool Group::HasNonMetaEntries() const {
 
 std::string Group::ToJson() const {
   std::stringstream json;
+  json.imbue(std::locale::classic());
 
   json << "{";
   json << "\"icon\":" << icon_;
-- 
2.43.0

