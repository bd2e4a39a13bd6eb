From aef51b860a66d2f760ca151dd0f8890b53e95b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 01/28] fix: use aligned loads in XXH64 only for aligned input

The aligned and unaligned variants were swapped, so unaligned buffers were
read through misaligned 64-bit and 32-bit pointers.
---
 include/nudb/detail/xxhash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/xxhash.hpp b/include/nudb/detail/xxhash.hpp
index 648b2cf..6c1b612 100644
--- a/include/nudb/detail/xxhash.hpp
+++ b/include/nudb/detail/xxhash.hpp
@@ -316,9 +316,9 @@ XXH64(void const* data, size_t bytes, std::uint64_t seed)
     // Use faster algorithm if aligned
     if((reinterpret_cast<std::uintptr_t>(data) & 7) == 0)
         return XXH64_endian_align(data, bytes, seed,
-            is_little_endian{}, std::false_type{});
+            is_little_endian{}, std::true_type{});
     return XXH64_endian_align(data, bytes, seed,
-        is_little_endian{}, std::true_type{});
+        is_little_endian{}, std::false_type{});
 }
 
 } // detail
-- 
2.43.0


From 59ba43ee1902a3c21e7584989fc3917965789006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:34 +0000
Subject: [PATCH 02/28] fix: visit reports a truncated data record instead of
 reading past it

---
 include/nudb/impl/visit.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/visit.ipp b/include/nudb/impl/visit.ipp
index 4d57b95..60af810 100644
--- a/include/nudb/impl/visit.ipp
+++ b/include/nudb/impl/visit.ipp
@@ -68,6 +68,8 @@ visit(
             is = r.prepare(
                 dh.key_size +           // Key
                 size, ec);              // Data
+            if(ec)
+                return;
             std::uint8_t const* const key =
                 is.data(dh.key_size);
             callback(key, dh.key_size,
-- 
2.43.0


From 44b8897186c49f1cc1eaeeab7417a61c6d1f6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 03/28] fix: verify accepts the spill records of valid
 databases

The normal algorithm reported invalid_spill_size for the unused spill records
left by rekeying with another block size. The fast algorithm reported it for
every spill record when the block size is 104 to 115, because
bucket_capacity() returns zero for sizes below the key file header size.
---
 include/nudb/impl/verify.ipp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index b10b3e6..059d0a7 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -24,6 +24,20 @@ namespace nudb {
 
 namespace detail {
 
+// Returns `true` if size is the size of a bucket of some capacity.
+//
+// Spill records written before the key file was rebuilt
+// with another block size can have any of these sizes.
+//
+template<class = void>
+bool
+is_bucket_size(nsize_t size)
+{
+    auto const none = bucket_size(0);
+    auto const entry = bucket_size(1) - none;
+    return size > none && (size - none) % entry == 0;
+}
+
 // Normal verify that does not require a buffer
 //
 template<
@@ -155,14 +169,12 @@ verify_normal(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);  // Size
-                if(size != info.bucket_size)
+                if(! is_bucket_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
                 }
-                if(ec)
-                    return;
-                b.read(r, ec);                  // Bucket
+                r.prepare(size, ec);            // Bucket
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -174,7 +186,7 @@ verify_normal(
                 info.spill_bytes_tot +=
                     field<uint48_t>::size +     // Zero
                     field<uint16_t>::size +     // Size
-                    b.actual_size();            // Bucket
+                    size;                       // Bucket
             }
             progress(work + offset, nwork);
         }
@@ -469,8 +481,7 @@ verify_fast(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);      // Size
-                if(bucket_size(
-                    bucket_capacity(size)) != size)
+                if(! is_bucket_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
-- 
2.43.0


From 88399b3b8f39434af8c64699d1449d76bae082cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 04/28] fix: fast verify counts the bytes of spill records

The size of an unrelated, possibly never read, bucket was added instead.
---
 include/nudb/impl/verify.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 059d0a7..f224eaa 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -500,7 +500,7 @@ verify_fast(
                     info.spill_bytes_tot +=
                         field<uint48_t>::size +     // Zero
                         field<uint16_t>::size +     // Size
-                        tmp.actual_size();          // Bucket
+                        size;                       // Bucket
                 }
             }
             progress(work + offset, nwork);
-- 
2.43.0


From 42115b10df83259b544dcf9b9bd4dc2db2dad078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 05/28] fix: fast verify reports bucket entries with a wrong
 value size

---
 include/nudb/impl/verify.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index f224eaa..84b9d04 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -438,7 +438,14 @@ verify_fast(
                         if(item.hash != h)
                             break;
                         if(item.offset == offset)
+                        {
+                            if(item.size != size)
+                            {
+                                ec = error::size_mismatch;
+                                return;
+                            }
                             goto found;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
-- 
2.43.0


From e93c2f8a00cd0cac368afd6856fd2d051859faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 06/28] fix: fast verify reports bucket counts above the
 capacity

The entries of such a bucket were read from beyond its block.
---
 include/nudb/impl/verify.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 84b9d04..c5bca49 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -356,6 +356,11 @@ verify_fast(
         {
             bucket b{kh.block_size,
                 buf.get() + i * kh.block_size};
+            if(b.size() > kh.capacity)
+            {
+                ec = error::invalid_bucket_size;
+                return;
+            }
             nkeys[i] = b.size();
             std::size_t nspill = 0;
             auto spill = b.spill();
-- 
2.43.0


From 6c9b00f39b0d2d1188c258d7bbb836fac6c65fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 07/28] fix: reject compact buckets with more entries than fit

A damaged log record made the entries overflow the block buffer.
---
 include/nudb/detail/bucket.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 8a8efbf..4f96fcd 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -378,6 +378,11 @@ read(bulk_reader<File>& r, error_code& ec)
         return;
     detail::read<std::uint16_t>(is, size_); // Count
     detail::read<uint48_t>(is, spill_);     // Spill
+    if(size_ > bucket_capacity(block_size_))
+    {
+        ec = error::invalid_bucket_size;
+        return;
+    }
     update();
     // Excludes empty bucket entries
     auto const w = size_ * (
-- 
2.43.0


From 5793a9bca2b3e90acbb5b3b6888c88e8c3212636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 08/28] fix: do not assert on or truncate damaged sizes read
 from files

---
 include/nudb/detail/field.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/field.hpp b/include/nudb/detail/field.hpp
index e3101b1..f0e9fdf 100644
--- a/include/nudb/detail/field.hpp
+++ b/include/nudb/detail/field.hpp
@@ -10,6 +10,7 @@
 
 #include <nudb/detail/stream.hpp>
 #include <boost/assert.hpp>
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <limits>
@@ -171,8 +172,10 @@ read_size48(istream& is, std::size_t& u)
 {
     std::uint64_t v;
     read<uint48_t>(is, v);
-    BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-    u = static_cast<std::uint32_t>(v);
+    // Sizes this large are never written. When found in a
+    // damaged file they must not alias a smaller size.
+    u = static_cast<std::size_t>(std::min<std::uint64_t>(
+        v, std::numeric_limits<std::size_t>::max() / 2));
 }
 
 // write field to ostream
-- 
2.43.0


From 7c91bd4ad090fb8325c18b9c99f00f8ffec63106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 09/28] fix: verify ends when a spill chain contains a cycle

---
 include/nudb/impl/verify.ipp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index c5bca49..d71c7f5 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -38,6 +38,19 @@ is_bucket_size(nsize_t size)
     return size > none && (size - none) % entry == 0;
 }
 
+// Returns the largest number of spill records that fit in the
+// data file. A longer chain of spills visits some record twice.
+//
+template<class = void>
+std::uint64_t
+max_spills(verify_info const& info)
+{
+    return info.dat_file_size / (
+        field<uint48_t>::size +     // Zero
+        field<uint16_t>::size +     // Size
+        info.bucket_size);          // Bucket
+}
+
 // Normal verify that does not require a buffer
 //
 template<
@@ -83,6 +96,7 @@ verify_normal(
         field<uint48_t>::size + // Size
         kh.key_size;            // Key
     std::uint64_t fetches = 0;
+    auto const maxSpills = max_spills(info);
     buffer buf{kh.block_size + dh_len};
     bucket b{kh.block_size, buf.get()};
     std::uint8_t* pd = buf.get() + kh.block_size;
@@ -123,7 +137,7 @@ verify_normal(
                     return;
                 work += kh.block_size;
                 ++fetches;
-                for(;;)
+                for(std::uint64_t nspill = 0;; ++nspill)
                 {
                     for(auto i = b.lower_bound(h);
                         i < b.size(); ++i)
@@ -136,7 +150,7 @@ verify_normal(
                         ++fetches;
                     }
                     auto const spill = b.spill();
-                    if(! spill)
+                    if(! spill || nspill >= maxSpills)
                     {
                         ec = error::orphaned_value;
                         return;
@@ -244,6 +258,11 @@ verify_normal(
                 }
                 if(! b.spill())
                     break;
+                if(nspill >= maxSpills)
+                {
+                    ec = error::invalid_spill_size;
+                    return;
+                }
                 b.read(df, b.spill(), ec);
                 if(ec)
                     return;
@@ -333,6 +352,7 @@ verify_fast(
     progress(0, nwork);
 
     std::uint64_t fetches = 0;
+    auto const maxSpills = max_spills(info);
     buffer buf{(chunkSize + 1) * kh.block_size};
     bucket tmp{kh.block_size,
         buf.get() + chunkSize * kh.block_size};
@@ -366,6 +386,11 @@ verify_fast(
             auto spill = b.spill();
             while(spill != 0)
             {
+                if(nspill >= maxSpills)
+                {
+                    ec = error::invalid_spill_size;
+                    return;
+                }
                 tmp.read(df, spill, ec);
                 if(ec == error::short_read)
                 {
-- 
2.43.0


From 8fa884a567104e6fa6ff7cafe68ae35d3bc30b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 10/28] fix: recover stops when a log record cannot be read

After an error other than short_read the stale contents of the buffer were
written to the key file.
---
 include/nudb/impl/recover.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index e449c36..65d0196 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -153,6 +153,8 @@ recover(
                 ec = {};
                 break;
             }
+            if(ec)
+                return;
             if(b.spill() && b.spill() + bucketSize > dataFileSize)
             {
                 ec = error::invalid_log_spill;
-- 
2.43.0


From 2d186767518e578d878afa1874a3980007e83268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 11/28] fix: recover reports damaged log indexes instead of
 asserting

---
 include/nudb/impl/recover.ipp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 65d0196..a179913 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -144,7 +144,11 @@ recover(
                 std::uint64_t v;
                 // VFALCO This should have been a uint32_t
                 read<std::uint64_t>(is, v); // Index
-                BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
+                if(v > kh.buckets)
+                {
+                    ec = error::invalid_log_index;
+                    return;
+                }
                 n = static_cast<nsize_t>(v);
             }
             b.read(r, ec);                  // Bucket
@@ -160,11 +164,6 @@ recover(
                 ec = error::invalid_log_spill;
                 return;
             }
-            if(n > kh.buckets)
-            {
-                ec = error::invalid_log_index;
-                return;
-            }
             b.write(kf, static_cast<noff_t>(n + 1) * kh.block_size, ec);
             if(ec)
                 return;
-- 
2.43.0


From d3eb077f42ca159a9720160d7e9a71d6e48dcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:02 +0000
Subject: [PATCH 12/28] fix: create without uid uses the given file type

---
 include/nudb/impl/create.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index ee560c6..b007b00 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -173,7 +173,7 @@ create(
     error_code& ec,
     Args&&... args)
 {
-    create<Hasher>(dat_path, key_path, log_path,
+    create<Hasher, File>(dat_path, key_path, log_path,
             appnum, make_uid(), salt, key_size, blockSize,
             load_factor, ec, args...);
 }
-- 
2.43.0


From 02f54320c105c3735c3eeb8db081a4070f28e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:02 +0000
Subject: [PATCH 13/28] fix: a failing create erases its files through the
 given file type

---
 include/nudb/impl/create.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index b007b00..e73ec90 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -148,11 +148,11 @@ create(
     }
 fail:
     if(edf)
-        erase_file(dat_path);
+        erase_file<File>(dat_path);
     if(ekf)
-        erase_file(key_path);
+        erase_file<File>(key_path);
     if(elf)
-        erase_file(log_path);
+        erase_file<File>(log_path);
 }
 
 template<
-- 
2.43.0


From a971e363c3819e454ccdba21fc4446fbb6b58ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:02 +0000
Subject: [PATCH 14/28] fix: create refuses key sizes that do not fit in the
 headers

---
 include/nudb/impl/create.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index e73ec90..bacbd63 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -63,7 +63,8 @@ create(
         "File requirements not met");
 
     using namespace detail;
-    if(key_size < 1)
+    if(key_size < 1 ||
+        key_size > field<std::uint16_t>::max)
     {
         ec = error::invalid_key_size;
         return;
-- 
2.43.0


From 4c5f2049c6aa7c8605a272956ae2567f9d572433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:02 +0000
Subject: [PATCH 15/28] fix: create refuses load factors that make an unusable
 database

---
 include/nudb/impl/create.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index bacbd63..7fd8ce4 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -74,7 +74,8 @@ create(
         ec = error::invalid_block_size;
         return;
     }
-    if(load_factor <= 0.f || load_factor >= 1.f)
+    // The headers hold load_factor * 65536, which must not be zero
+    if(! (load_factor >= 1.f / 65536 && load_factor < 1.f))
     {
         ec = error::invalid_load_factor;
         return;
-- 
2.43.0


From 03898ca7e878ff34060878840c4512265a27ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:02 +0000
Subject: [PATCH 16/28] fix: erase_file uses the given file type

---
 include/nudb/native_file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/native_file.hpp b/include/nudb/native_file.hpp
index 241119a..13cb885 100644
--- a/include/nudb/native_file.hpp
+++ b/include/nudb/native_file.hpp
@@ -46,7 +46,7 @@ inline
 void
 erase_file(path_type const& path, error_code& ec)
 {
-    native_file::erase(path, ec);
+    File::erase(path, ec);
     if(ec == errc::no_such_file_or_directory)
         ec = {};
 }
-- 
2.43.0


From e70b4e6f3bc2e1ce75e142364f0be30ab743f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:02 +0000
Subject: [PATCH 17/28] fix: recover erases the log file through the given file
 type

---
 include/nudb/impl/recover.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index a179913..6a0174a 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -66,7 +66,7 @@ recover(
     if(keyFileSize <= key_file_header::size)
     {
         kf.close();
-        erase_file(log_path, ec);
+        erase_file<File>(log_path, ec);
         if(ec)
             return;
         File::erase(key_path, ec);
-- 
2.43.0


From a9f3e6e19c5474cd2d6000826f67e44f2b6ecc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:59 +0000
Subject: [PATCH 18/28] fix: recover refuses the log of a rekey of another
 database

---
 include/nudb/detail/format.hpp | 26 ++++++++++++++++++++++++++
 include/nudb/impl/recover.ipp  |  2 +-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/nudb/detail/format.hpp b/include/nudb/detail/format.hpp
index 1711f51..b3013a2 100644
--- a/include/nudb/detail/format.hpp
+++ b/include/nudb/detail/format.hpp
@@ -583,6 +583,32 @@ verify(dat_file_header const& dh,
     }
 }
 
+// Make sure data file and log file headers match
+template<class Hasher>
+void
+verify(dat_file_header const& dh,
+    log_file_header const& lh, error_code& ec)
+{
+    verify<Hasher>(lh, ec);
+    if(ec)
+        return;
+    if(dh.uid != lh.uid)
+    {
+        ec = error::uid_mismatch;
+        return;
+    }
+    if(dh.appnum != lh.appnum)
+    {
+        ec = error::appnum_mismatch;
+        return;
+    }
+    if(dh.key_size != lh.key_size)
+    {
+        ec = error::key_size_mismatch;
+        return;
+    }
+}
+
 // Make sure key file and log file headers match
 template<class Hasher>
 void
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 6a0174a..271a3d9 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -100,7 +100,7 @@ recover(
     }
     if(ec)
         return;
-    verify<Hasher>(lh, ec);
+    verify<Hasher>(dh, lh, ec);
     if(ec)
         return;
     if(lh.key_file_size == 0)
-- 
2.43.0


From d38fbe67890e6903598a40f4407834f922038822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:59 +0000
Subject: [PATCH 19/28] fix: a failing open leaves no log file behind

---
 include/nudb/impl/basic_store.ipp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 8d61a95..3619d2e 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -144,11 +144,6 @@ open(
     kf.open(file_mode::write, key_path, ec);
     if(ec)
         return;
-    lf.create(file_mode::append, log_path, ec);
-    if(ec)
-        return;
-    // VFALCO TODO Erase empty log file if this
-    //             function subsequently fails.
     dat_file_header dh;
     read(df, dh, ec);
     if(ec)
@@ -164,6 +159,10 @@ open(
     if(ec)
         return;
     verify<Hasher>(dh, kh, ec);
+    if(ec)
+        return;
+    // Created last, so that failing leaves no log file behind
+    lf.create(file_mode::append, log_path, ec);
     if(ec)
         return;
     boost::optional<state> s;
@@ -174,12 +173,6 @@ open(
     frac_ = thresh_ / 2;
     buckets_ = kh.buckets;
     modulus_ = ceil_pow2(kh.buckets);
-    // VFALCO TODO This could be better
-    if(buckets_ < 1)
-    {
-        ec = error::short_key_file;
-        return;
-    }
     dataWriteSize_ = 32 * nudb::block_size(dat_path);
     logWriteSize_ = 32 * nudb::block_size(log_path);
     s_.emplace(std::move(*s));
-- 
2.43.0


From 320b7c15f070dfe067edef64371833994a65b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 20/28] fix: rekey with no items makes a usable key file

---
 include/nudb/impl/rekey.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 82cebf5..0f042c3 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -83,9 +83,11 @@ rekey(
     kh.block_size = blockSize;
     kh.load_factor = std::min<std::size_t>(
         static_cast<std::size_t>(65536.0f * loadFactor), 65535);
-    kh.buckets = static_cast<std::size_t>(
-        std::ceil(itemCount /(
-            bucket_capacity(kh.block_size) * loadFactor)));
+    // There is always at least one bucket
+    kh.buckets = std::max<std::size_t>(1,
+        static_cast<std::size_t>(
+            std::ceil(itemCount /(
+                bucket_capacity(kh.block_size) * loadFactor))));
     kh.modulus = ceil_pow2(kh.buckets);
     // Create key file
     File kf{args...};
-- 
2.43.0


From 9e2124e50db07efacb6446aaddffdf87c33ac7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 21/28] fix: rekey refuses block sizes and load factors that
 make an unusable key file

---
 include/nudb/impl/rekey.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 0f042c3..d22bd18 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -44,6 +44,18 @@ rekey(
     static_assert(is_Progress<Progress>::value,
         "Progress requirements not met");
     using namespace detail;
+    if(blockSize > field<std::uint16_t>::max ||
+        bucket_capacity(blockSize) < 1)
+    {
+        ec = error::invalid_block_size;
+        return;
+    }
+    // The headers hold loadFactor * 65536, which must not be zero
+    if(! (loadFactor >= 1.f / 65536 && loadFactor < 1.f))
+    {
+        ec = error::invalid_load_factor;
+        return;
+    }
     auto const readSize = 1024 * block_size(dat_path);
     auto const writeSize = 16 * block_size(key_path);
 
-- 
2.43.0


From fd77cdb16d7f6ff79d8fc549cac542cb9243ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 22/28] fix: interrupting the recovery of an interrupted rekey
 leaves no log file

---
 include/nudb/impl/recover.ipp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 271a3d9..b2f8ae9 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -187,10 +187,22 @@ trunc_files:
     }
     else
     {
+        // Undo an interrupted rekey. The log file is erased
+        // first: without its key file it could not be recovered.
+        // A key file without header is erased if we are interrupted.
+        kf.trunc(0, ec);
+        if(ec)
+            return;
+        kf.sync(ec);
+        if(ec)
+            return;
         kf.close();
-        File::erase(key_path, ec);
+        lf.close();
+        File::erase(log_path, ec);
         if(ec)
             return;
+        File::erase(key_path, ec);
+        return;
     }
 clear_log:
     lf.trunc(0, ec);
-- 
2.43.0


From 11882c54fd6aed608e04da2b279e819cf00630d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:40 +0000
Subject: [PATCH 23/28] fix: rekey synchronises the data and key files before
 erasing the log

---
 include/nudb/impl/rekey.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index d22bd18..47cbde8 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -249,6 +249,13 @@ rekey(
             return;
     }
     dw.flush(ec);
+    if(ec)
+        return;
+    // Without the log file there is no way back
+    df.sync(ec);
+    if(ec)
+        return;
+    kf.sync(ec);
     if(ec)
         return;
     lf.close();
-- 
2.43.0


From ecd16cb9ebc947c45d2f1157bbde055951781641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:44 +0000
Subject: [PATCH 24/28] fix: posix_file reports the error posix_fadvise returns
 and releases the file

---
 include/nudb/impl/posix_file.ipp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/nudb/impl/posix_file.ipp b/include/nudb/impl/posix_file.ipp
index cb33b82..bbf1370 100644
--- a/include/nudb/impl/posix_file.ipp
+++ b/include/nudb/impl/posix_file.ipp
@@ -64,8 +64,14 @@ create(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // posix_fadvise returns the error, errno is not set
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        ::unlink(path.c_str());
+        return err(ev, ec);
+    }
 #endif
 }
 
@@ -80,8 +86,13 @@ open(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // posix_fadvise returns the error, errno is not set
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        return err(ev, ec);
+    }
 #endif
 }
 
-- 
2.43.0


From 0747121a92abda4c4604e90daf6ee49a721f4f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 25/28] fix: the tool's info command fails when it cannot show
 a file

---
 tools/nudb.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tools/nudb.cpp b/tools/nudb.cpp
index add2612..7788f32 100644
--- a/tools/nudb.cpp
+++ b/tools/nudb.cpp
@@ -273,16 +273,18 @@ private:
     {
         if(! vm.count("dat") && ! vm.count("key") && ! vm.count("log"))
             return error("No files specified");
+        bool ok = true;
         if(vm.count("dat"))
-            do_info(vm["dat"].as<std::string>());
+            ok = do_info(vm["dat"].as<std::string>()) && ok;
         if(vm.count("key"))
-            do_info(vm["key"].as<std::string>());
+            ok = do_info(vm["key"].as<std::string>()) && ok;
         if(vm.count("log"))
-            do_info(vm["log"].as<std::string>());
-        return EXIT_SUCCESS;
+            ok = do_info(vm["log"].as<std::string>()) && ok;
+        return ok ? EXIT_SUCCESS : EXIT_FAILURE;
     }
 
-    void
+    // Returns true if the information was shown
+    bool
     do_info(path_type const& path)
     {
         error_code ec;
@@ -290,6 +292,7 @@ private:
             [&]
             {
                 std::cout << path << ": " << ec.message() << "\n";
+                return false;
             };
         native_file f;
         f.open(file_mode::read, path, ec);
@@ -301,7 +304,7 @@ private:
         if(size < 8)
         {
             std::cout << "File " << path << " is too small to be a database file.\n";
-            return;
+            return false;
         }
         std::array<char, 8> ta;
         f.read(0, ta.data(), ta.size(), ec);
@@ -320,7 +323,7 @@ private:
                 "data file:       " << path << "\n"
                 "file size:       " << fdec(size) << "\n" <<
                 h << "\n";
-            return;
+            return true;
         }
 
         if(ts == "nudb.key")
@@ -334,7 +337,7 @@ private:
                 "key file:        " << path << "\n"
                 "file size:       " << fdec(size) << "\n" <<
                 h << "\n";
-            return;
+            return true;
         }
 
         if(ts == "nudb.log")
@@ -348,10 +351,11 @@ private:
                 "log file:        " << path << "\n"
                 "file size:       " << fdec(size) << "\n" <<
                 h << "\n";
-            return;
+            return true;
         }
 
         std::cout << "File " << path << " has unknown type '" << ts << "'.\n";
+        return false;
     }
 
     int
-- 
2.43.0


From a1ec24289fe89c5d897eac57f6392ebf0d792305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:47 +0000
Subject: [PATCH 26/28] fix: key files with more buckets than can be indexed
 are refused

---
 include/nudb/detail/format.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nudb/detail/format.hpp b/include/nudb/detail/format.hpp
index b3013a2..ddf4bff 100644
--- a/include/nudb/detail/format.hpp
+++ b/include/nudb/detail/format.hpp
@@ -522,7 +522,8 @@ verify(key_file_header const& kh, error_code& ec)
         ec = error::invalid_capacity;
         return;
     }
-    if(kh.buckets < 1)
+    // bucket_index works for at most 2^32 buckets
+    if(kh.buckets < 1 || kh.modulus > 0x100000000)
     {
         ec = error::invalid_bucket_count;
         return;
-- 
2.43.0


From 3b0b6be6eee82b698e2a8169e0734226b95581ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:18 +0000
Subject: [PATCH 27/28] fix: verify reports more work done than there is

---
 include/nudb/impl/verify.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index d71c7f5..7d80183 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -81,7 +81,8 @@ verify_normal(
     // The number is determined empirically.
     auto const adjust = 1.75;
     
-    // Calculate the work required
+    // Estimate the work required. There can be
+    // more keys, the progress is limited then.
     auto const keys = static_cast<std::uint64_t>(
         double(kh.load_factor) / 65536.0 * kh.buckets * kh.capacity);
     std::uint64_t const nwork = static_cast<std::uint64_t>(
@@ -202,7 +203,8 @@ verify_normal(
                     field<uint16_t>::size +     // Size
                     size;                       // Bucket
             }
-            progress(work + offset, nwork);
+            progress(std::min<std::uint64_t>(
+                work + offset, nwork), nwork);
         }
         work += info.dat_file_size;
     }
@@ -277,7 +279,7 @@ verify_normal(
             if(nspill >= info.hist.size())
                 nspill = info.hist.size() - 1;
             ++info.hist[nspill];
-            progress(work, nwork);
+            progress(std::min(work, nwork), nwork);
         }
     }
     float sum = 0;
-- 
2.43.0


From 8f499fc11878c6c6d1adf46009b11a7a65adab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:15 +0000
Subject: [PATCH 28/28] fix: make_uid and make_salt have only 32 bits of
 randomness

---
 include/nudb/impl/create.ipp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index 7fd8ce4..6c17926 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -25,9 +25,8 @@ std::uint64_t
 make_uid()
 {
     std::random_device rng;
-    std::mt19937_64 gen {rng()};
-    std::uniform_int_distribution <std::size_t> dist;
-    return dist(gen);
+    std::uniform_int_distribution<std::uint64_t> dist;
+    return dist(rng);
 }
 
 template<class>
@@ -35,9 +34,8 @@ std::uint64_t
 make_salt()
 {
     std::random_device rng;
-    std::mt19937_64 gen {rng()};
-    std::uniform_int_distribution <std::size_t> dist;
-    return dist(gen);
+    std::uniform_int_distribution<std::uint64_t> dist;
+    return dist(rng);
 }
 
 template<
-- 
2.43.0

