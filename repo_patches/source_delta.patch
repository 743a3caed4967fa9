From 81bcd77a9adcfecba8ce6b48117698d8f43b09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:35 +0000
Subject: [PATCH 01/47] fix: reject non-hex characters when decoding hex
 instead of reading outside the lookup table

---
 src/maidsafe/common/encode.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 9667dc5..444c62d 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -39,6 +39,12 @@ namespace hex {
 
 namespace {
 
+unsigned char DecodeDigit(char digit) {
+  if ((digit < '0' || digit > '9') && (digit < 'a' || digit > 'f'))
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
+  return detail::lookup[static_cast<int>(digit)];
+}
+
 template <typename T>
 T Decode(const std::string& hex_input) {
   auto size(hex_input.size());
@@ -47,8 +53,8 @@ T Decode(const std::string& hex_input) {
 
   T non_hex_output(size / 2, 0);
   for (size_t i(0), j(0); i != size / 2; ++i) {
-    non_hex_output[i] = (detail::lookup[static_cast<int>(hex_input[j++])] << 4);
-    non_hex_output[i] |= detail::lookup[static_cast<int>(hex_input[j++])];
+    non_hex_output[i] = (DecodeDigit(hex_input[j++]) << 4);
+    non_hex_output[i] |= DecodeDigit(hex_input[j++]);
   }
   return non_hex_output;
 }
-- 
2.43.0


From 1830141ca45f8733a1843ad37d0ba45e241af0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 02/47] fix: reject base64 text with a data character after the
 first pad character

---
 src/maidsafe/common/encode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 444c62d..38f4ef6 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -114,6 +114,8 @@ T Decode(const std::string& base64_input) {
             decoded_bytes.push_back((temp >> 8) & 0x000000FF);
             return decoded_bytes;
           case 2:  // Two pad characters
+            if (*(cursor + 1) != detail::pad_character)
+              BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
             decoded_bytes.push_back((temp >> 10) & 0x000000FF);
             return decoded_bytes;
           default:
-- 
2.43.0


From 340e8cf8f70cce1cd30d0f062d0fce469f0902f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 03/47] fix: a moved-from BoundedString no longer claims to be
 initialised while outside its bounds

---
 include/maidsafe/common/bounded_string.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/maidsafe/common/bounded_string.h b/include/maidsafe/common/bounded_string.h
index fdd25d0..6b9b7f2 100644
--- a/include/maidsafe/common/bounded_string.h
+++ b/include/maidsafe/common/bounded_string.h
@@ -130,13 +130,16 @@ class BoundedString {
 
   BoundedString(BoundedString&& other) MAIDSAFE_NOEXCEPT
       : string_(std::move(other.string_)),
-        valid_(std::move(other.valid_)) INIT_DEBUG_STRING {}
+        valid_(std::move(other.valid_)) INIT_DEBUG_STRING {
+    other.valid_ = !other.OutwithBounds();
+  }
 
   BoundedString& operator=(const BoundedString&) = default;
 
   BoundedString& operator=(BoundedString&& other) MAIDSAFE_NOEXCEPT {
     string_ = std::move(other.string_);
     valid_ = std::move(other.valid_);
+    other.valid_ = !other.OutwithBounds();
 #ifndef NDEBUG
     debug_string_ = std::move(other.debug_string_);
 #endif
-- 
2.43.0


From afdcdbb1155e37e8484d3b602311ee28e3935996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 04/47] fix: reject binary identity text that is not exactly
 one digit per bit

---
 src/maidsafe/common/identity.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/identity.cc b/src/maidsafe/common/identity.cc
index 5c3d81c..cc29056 100644
--- a/src/maidsafe/common/identity.cc
+++ b/src/maidsafe/common/identity.cc
@@ -96,6 +96,8 @@ std::string Encode(const Identity& id) { return Encode(id.string()); }
 
 Identity MakeIdentity(const binary::String& id) {
   try {
+    if (id->size() != 8 * identity_size)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_identity));
     std::vector<byte> raw_id(identity_size, 0);
     for (size_t i = 0; i < identity_size; ++i) {
       std::bitset<8> temp(id->substr(i * 8, 8));
-- 
2.43.0


From 4188d3745cd2f47dcf7090261403e923a5ec2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:23 +0000
Subject: [PATCH 05/47] fix: count each byte once in the SipHash length byte

---
 src/maidsafe/common/hash/algorithms/siphash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/hash/algorithms/siphash.cc b/src/maidsafe/common/hash/algorithms/siphash.cc
index 9bba844..09daa61 100644
--- a/src/maidsafe/common/hash/algorithms/siphash.cc
+++ b/src/maidsafe/common/hash/algorithms/siphash.cc
@@ -104,7 +104,7 @@ std::uint64_t FinalizeInternal(std::uint64_t v0, std::uint64_t v1, std::uint64_t
   //
   // Compress remainder bytes
   //
-  std::uint64_t b = (static_cast<std::uint64_t>(b_in + inlen)) << 56;
+  std::uint64_t b = static_cast<std::uint64_t>(b_in) << 56;
 
   switch (inlen & 7) {
     case 7:
-- 
2.43.0


From fe9c130577f7da08e5075d458586218281779942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 06/47] fix: a menu without items no longer dereferences a null
 parent

---
 src/maidsafe/common/menu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index c531e8e..d4c37a3 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -46,7 +46,7 @@ int Menu::Run() {
       if (clear_cli) {
         cli_.Clear();
         clear_cli = false;
-        if (current_item_->HasNoChildren())
+        if (current_item_->HasNoChildren() && current_item_->kParent_)
           current_item_ = current_item_->kParent_;
         ShowOptions();
       }
-- 
2.43.0


From a837f99a20b97894cd4112b28420aed1370b152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 07/47] fix: a menu whose input has ended returns an error
 instead of asking for ever

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index d4c37a3..37e48bb 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -60,6 +60,8 @@ int Menu::Run() {
           current_item_ = current_item_->Child(result - 1);
         }
       } catch (const std::exception&) {
+        if (!std::cin)  // end of input: there is nothing left to ask for
+          throw;
         TLOG(kYellow) << "Invalid choice\n";
         continue;
       }
-- 
2.43.0


From 3dc187215850cfafaafe0aa37418b3b1610b7b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 08/47] fix: a negative menu choice is rejected before
 arithmetic on it can overflow

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index 37e48bb..bffdc3c 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -56,6 +56,8 @@ int Menu::Run() {
           break;
         } else if (result == 99 && current_item_->kParent_) {
           current_item_ = current_item_->kParent_;
+        } else if (result < 0) {
+          BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
         } else {
           current_item_ = current_item_->Child(result - 1);
         }
-- 
2.43.0


From 5c182b1c85e52ab4c54417d05871db4c62f67b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 09/47] fix: profiling a location whose path ends with the
 directory marker no longer throws

---
 src/maidsafe/common/profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/profiler.cc b/src/maidsafe/common/profiler.cc
index 1487146..53fd81c 100644
--- a/src/maidsafe/common/profiler.cc
+++ b/src/maidsafe/common/profiler.cc
@@ -37,7 +37,7 @@ std::string LocationToString(const ProfileEntry::Location& location) {
   auto result(location.file);
   boost::replace_all(result, "\\", "/");
   size_t position(result.rfind("maidsafe"));
-  if (position != std::string::npos && position != 0)
+  if (position != std::string::npos && position != 0 && position + 9 <= result.size())
     result = result.substr(position + 9);
   result += ":" + std::to_string(location.line) + "] " + location.function;
   return result;
-- 
2.43.0


From 5aaeab10994c7638cbdbfb77f46015f4663a3ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 10/47] fix: an unreadable or over-long program link no longer
 overruns the path buffer

---
 src/maidsafe/common/config.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/config.cc b/src/maidsafe/common/config.cc
index 640d45b..8d25dfa 100644
--- a/src/maidsafe/common/config.cc
+++ b/src/maidsafe/common/config.cc
@@ -72,8 +72,8 @@ void SetThisExecutablePath(const char* const argv[]) {
 #endif
 #ifdef __linux__
     char buffer[PATH_MAX];
-    size_t len = 0;
-    if ((len = readlink("/proc/self/exe", buffer, sizeof(buffer))) > 0) {
+    ssize_t len = readlink("/proc/self/exe", buffer, sizeof(buffer) - 1);
+    if (len > 0) {
       buffer[len] = 0;
       path = buffer;
     }
-- 
2.43.0


From fa9b7afc9b19803636842212379a1f517a227709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 11/47] fix: stopping an asio service from its own pool no
 longer deadlocks with another stop

---
 include/maidsafe/common/asio_service.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index e99028d..442516c 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -46,6 +46,12 @@ class IoService {
   size_t ThreadCount() const { return thread_count_; }
 
  private:
+  // The pool whose thread is calling, or null if the caller doesn't belong to one.
+  static const IoService*& CallersPool() {
+    static thread_local const IoService* pool(nullptr);
+    return pool;
+  }
+
   std::atomic<size_t> thread_count_;
   IoServiceType service_;
   std::unique_ptr<typename IoServiceType::work> work_;
@@ -69,6 +75,7 @@ IoService<IoServiceType>::IoService(size_t thread_count)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
   for (size_t i(0); i != thread_count; ++i)
     threads_.emplace_back([&] {
+      CallersPool() = this;
       try {
         service_.run();
       } catch (...) {
@@ -83,14 +90,14 @@ IoService<IoServiceType>::IoService(size_t thread_count)
 
 template <typename IoServiceType>
 void IoService<IoServiceType>::Stop() {
+  // Checked before locking, since another thread may hold the lock while joining this one.
+  if (CallersPool() == this)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
+
   thread_count_ = 0U;
   std::lock_guard<std::mutex> lock{mutex_};
   if (!work_)
     return;
-  for (const auto& asio_thread : threads_) {
-    if (std::this_thread::get_id() == asio_thread.get_id())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
-  }
 
   work_.reset();
 
-- 
2.43.0


From ff65e2fac46a6874f3e1db32f325dfa8d98a35d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 12/47] fix: converting the smallest integer to an error no
 longer overflows

---
 src/maidsafe/common/error.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/error.cc b/src/maidsafe/common/error.cc
index 1435af8..a879aea 100644
--- a/src/maidsafe/common/error.cc
+++ b/src/maidsafe/common/error.cc
@@ -70,9 +70,9 @@ int ErrorToInt(maidsafe_error error) {
 }
 
 maidsafe_error IntToError(int value) {
-  value = 0 - value;
-  ErrorCategories category_value{static_cast<ErrorCategories>(value - (value % kMultiple))};
-  int error_value{value % kMultiple};
+  // Not negated directly, since the smallest integer has no positive counterpart.
+  int error_value{0 - (value % kMultiple)};
+  ErrorCategories category_value{static_cast<ErrorCategories>(0 - (value / kMultiple) * kMultiple)};
   switch (category_value) {
     case ErrorCategories::kCommon:
       return maidsafe_error{error_value, GetCommonCategory()};
-- 
2.43.0


From 35f9f707b8ce5fd32d897d774d751991a332be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 13/47] fix: a refused input no longer leaves data whose name
 and value do not belong together

---
 include/maidsafe/common/data_types/immutable_data.h | 8 ++++++--
 include/maidsafe/common/data_types/mutable_data.h   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/maidsafe/common/data_types/immutable_data.h b/include/maidsafe/common/data_types/immutable_data.h
index aff9eaa..0ae2537 100644
--- a/include/maidsafe/common/data_types/immutable_data.h
+++ b/include/maidsafe/common/data_types/immutable_data.h
@@ -19,6 +19,8 @@
 #ifndef MAIDSAFE_COMMON_DATA_TYPES_IMMUTABLE_DATA_H_
 #define MAIDSAFE_COMMON_DATA_TYPES_IMMUTABLE_DATA_H_
 
+#include <utility>
+
 #include "cereal/types/base_class.hpp"
 #include "cereal/types/polymorphic.hpp"
 
@@ -54,9 +56,11 @@ class ImmutableData : public Data {
   template <typename Archive>
   Archive& load(Archive& archive) {
     try {
-      archive(cereal::base_class<Data>(this), value_);
-      if (name_ != crypto::Hash<crypto::SHA512>(value_))
+      ImmutableData parsed;
+      archive(cereal::base_class<Data>(&parsed), parsed.value_);
+      if (parsed.name_ != crypto::Hash<crypto::SHA512>(parsed.value_))
         BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
+      *this = std::move(parsed);
     } catch (const std::exception& e) {
       LOG(kWarning) << "Error parsing ImmutableData: " << boost::diagnostic_information(e);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
diff --git a/include/maidsafe/common/data_types/mutable_data.h b/include/maidsafe/common/data_types/mutable_data.h
index ba1a1dc..fb43948 100644
--- a/include/maidsafe/common/data_types/mutable_data.h
+++ b/include/maidsafe/common/data_types/mutable_data.h
@@ -19,6 +19,8 @@
 #ifndef MAIDSAFE_COMMON_DATA_TYPES_MUTABLE_DATA_H_
 #define MAIDSAFE_COMMON_DATA_TYPES_MUTABLE_DATA_H_
 
+#include <utility>
+
 #include "cereal/types/base_class.hpp"
 #include "cereal/types/polymorphic.hpp"
 
@@ -53,9 +55,11 @@ class MutableData : public Data {
   template <typename Archive>
   Archive& load(Archive& archive) {
     try {
-      archive(cereal::base_class<Data>(this), value_);
-      if (!value_.IsInitialised())
+      MutableData parsed;
+      archive(cereal::base_class<Data>(&parsed), parsed.value_);
+      if (!parsed.value_.IsInitialised())
         BOOST_THROW_EXCEPTION(MakeError(CommonErrors::uninitialised));
+      *this = std::move(parsed);
     } catch (const std::exception& e) {
       LOG(kWarning) << "Error parsing MutableData: " << boost::diagnostic_information(e);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
-- 
2.43.0


From ccc9a24d1ed005079fc99541396c139e637a4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:04 +0000
Subject: [PATCH 14/47] fix: reporting a very long or negative duration no
 longer overruns the profiler's buffer

---
 src/maidsafe/common/profiler.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/profiler.cc b/src/maidsafe/common/profiler.cc
index 53fd81c..9304f4c 100644
--- a/src/maidsafe/common/profiler.cc
+++ b/src/maidsafe/common/profiler.cc
@@ -19,6 +19,7 @@
 #include "maidsafe/common/profiler.h"
 
 #include <cstdio>
+#include <cstdlib>
 #include <future>
 #include <iostream>
 #include <iterator>
@@ -46,8 +47,11 @@ std::string LocationToString(const ProfileEntry::Location& location) {
 std::string DurationToString(const std::chrono::high_resolution_clock::duration& duration) {
   long long nanos(  // NOLINT
       std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count());
-  std::vector<char> buffer(21, 0);
-  std::sprintf(&buffer[0], "%8lli.%09lli s", nanos / 1000000000, nanos % 1000000000);  // NOLINT
+  // The clock may have been set during an interval, so any duration has to fit, negative ones too.
+  std::string seconds((nanos < 0 ? "-" : "") + std::to_string(std::abs(nanos / 1000000000)));
+  std::vector<char> buffer(32, 0);
+  std::snprintf(&buffer[0], buffer.size(), "%8s.%09lli s", seconds.c_str(),
+                std::abs(nanos % 1000000000));
   return std::string(&buffer[0]);
 }
 
-- 
2.43.0


From bdb54a05321fe7f1148b624efdc5039baf087a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:54 +0000
Subject: [PATCH 15/47] fix: the profiler's average of a negative total is no
 longer a huge positive duration

---
 src/maidsafe/common/profiler.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/profiler.cc b/src/maidsafe/common/profiler.cc
index 9304f4c..342b1dc 100644
--- a/src/maidsafe/common/profiler.cc
+++ b/src/maidsafe/common/profiler.cc
@@ -55,6 +55,13 @@ std::string DurationToString(const std::chrono::high_resolution_clock::duration&
   return std::string(&buffer[0]);
 }
 
+// The count is converted first, since dividing a negative duration by it would be done unsigned.
+std::chrono::high_resolution_clock::duration Average(
+    const std::pair<uint64_t, std::chrono::high_resolution_clock::duration>& details) {
+  return details.second /
+         static_cast<std::chrono::high_resolution_clock::duration::rep>(details.first);
+}
+
 void AppendInfo(
     const std::pair<std::string, std::pair<uint64_t, std::chrono::high_resolution_clock::duration>>&
         entry,
@@ -62,7 +69,7 @@ void AppendInfo(
   const auto& count(entry.second.first);
   const auto& total_duration(entry.second.second);
   output += entry.first + "\n  Called:                   " + std::to_string(count) + " times\n";
-  output += "  Average duration:  " + DurationToString(total_duration / count) + "\n";
+  output += "  Average duration:  " + DurationToString(Average(entry.second)) + "\n";
   output += "  Total duration:    " + DurationToString(total_duration) + "\n\n";
 }
 
@@ -136,7 +143,7 @@ Profiler::~Profiler() {
   output.assign("\nSorted by average duration\n==========================\n\n");
   std::sort(std::begin(entries), std::end(entries),
             [](const Entries::value_type& lhs, const Entries::value_type& rhs) {
-    return lhs.second.second / lhs.second.first > rhs.second.second / rhs.second.first;
+    return Average(lhs.second) > Average(rhs.second);
   });
   for (const auto& entry : entries)
     AppendInfo(entry, output);
-- 
2.43.0


From 1358fb720585c8d74d2984f91f38f973b2c3df32 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:33:13 +0000
Subject: [PATCH 16/47] fix: adding to an LRU cache of zero capacity removed
 from an empty list

---
 include/maidsafe/common/containers/lru_cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maidsafe/common/containers/lru_cache.h b/include/maidsafe/common/containers/lru_cache.h
index 92fed95..39639ac 100644
--- a/include/maidsafe/common/containers/lru_cache.h
+++ b/include/maidsafe/common/containers/lru_cache.h
@@ -98,7 +98,8 @@ class LruCacheBase {
   using Storage = typename StorageType<KeyType, T>::type;
 
   typename KeyOrder<KeyType>::iterator PrepareToAdd(const KeyType& key) {
-    if (storage_.find(key) != storage_.end())
+    // A cache of zero capacity holds nothing
+    if (capacity_ == 0 || storage_.find(key) != storage_.end())
       return std::end(key_order_);
     // Check if we should evict any entries because of size
     if (storage_.size() == capacity_)
-- 
2.43.0


From f08ba822a63740f0a340db6d5d298e4161fc98a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:33:13 +0000
Subject: [PATCH 17/47] fix: the age of an LRU cache entry overflowed for a
 very long time to live

---
 include/maidsafe/common/containers/lru_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maidsafe/common/containers/lru_cache.h b/include/maidsafe/common/containers/lru_cache.h
index 39639ac..33be3ad 100644
--- a/include/maidsafe/common/containers/lru_cache.h
+++ b/include/maidsafe/common/containers/lru_cache.h
@@ -127,7 +127,7 @@ class LruCacheBase {
       return false;
     auto key = storage_.find(key_order_.front());
     assert(key != std::end(storage_) && "cannot find element");
-    return (std::get<1>(key->second) + time_to_live_) < std::chrono::steady_clock::now();
+    return std::chrono::steady_clock::now() - std::get<1>(key->second) > time_to_live_;
   }
 
   const size_t capacity_;
-- 
2.43.0


From 2af8d8e01e2763dacf74c92ef6b52090df98ced5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:41:47 +0000
Subject: [PATCH 18/47] fix: a refused removal from a secure input no longer
 removes characters

---
 .../common/authentication/detail/secure_string.h         | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/maidsafe/common/authentication/detail/secure_string.h b/include/maidsafe/common/authentication/detail/secure_string.h
index 0283e19..bd776e4 100644
--- a/include/maidsafe/common/authentication/detail/secure_string.h
+++ b/include/maidsafe/common/authentication/detail/secure_string.h
@@ -22,6 +22,7 @@
 #include <string>
 #include <map>
 #include <functional>
+#include <iterator>
 
 #include "boost/regex.hpp"
 
@@ -184,13 +185,11 @@ void SecureInputString<Predicate, Size, Tag>::Remove(size_type position, size_ty
   if (IsFinalised())
     Reset();
   auto it(encrypted_chars_.find(position));
-  if (it == encrypted_chars_.end() || length == 0)
+  if (it == encrypted_chars_.end() || length == 0 ||
+      length > static_cast<size_type>(std::distance(it, encrypted_chars_.end())))
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  while (length != 0) {
+  for (; length != 0; --length)
     it = encrypted_chars_.erase(it);
-    if ((length -= 1 != 0) && it == encrypted_chars_.end())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  }
   while (it != encrypted_chars_.end()) {
     auto encrypted_char = it->second;
     it = encrypted_chars_.erase(it);
-- 
2.43.0


From 6294489731aa655d40ff0f99912df80476712f64 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 19/47] fix: VersionToInt accepted empty parts and parts with
 trailing or leading rubbish

---
 src/maidsafe/common/utils.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index dd98c7d..401d777 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -212,10 +212,18 @@ asio::ip::address GetLocalIp(asio::ip::udp::endpoint peer_endpoint) {
 }
 
 int VersionToInt(const std::string& version) {
-  boost::tokenizer<boost::char_separator<char>> tokens(version, boost::char_separator<char>("."));
+  boost::tokenizer<boost::char_separator<char>> tokens(version, boost::char_separator<char>(".", "", boost::keep_empty_tokens));
   if (std::distance(tokens.begin(), tokens.end()) != 3)
     return kInvalidVersion;
 
+  for (const auto& token : tokens) {
+    if (token.empty() ||
+        !std::all_of(token.begin(), token.end(), [](char c) { return c >= '0' && c <= '9'; })) {
+      LOG(kWarning) << "Invalid version " << version;
+      return kInvalidVersion;
+    }
+  }
+
   auto itr(tokens.begin());
 
   int16_t major_version(0), minor_version(0), patch_level(0);
-- 
2.43.0


From 6916b77908397c32c2454f8e5768c5b665317a06 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 20/47] fix: VersionToInt cut the parts to 16 bits

---
 src/maidsafe/common/utils.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 401d777..dc8595b 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -226,17 +226,17 @@ int VersionToInt(const std::string& version) {
 
   auto itr(tokens.begin());
 
-  int16_t major_version(0), minor_version(0), patch_level(0);
+  int major_version(0), minor_version(0), patch_level(0);
   try {
-    major_version = static_cast<int16_t>(std::stoi(*(itr++)));
+    major_version = std::stoi(*(itr++));
 
-    minor_version = static_cast<int16_t>(std::stoi(*itr));
+    minor_version = std::stoi(*itr);
     if ((*itr++).size() != 1U) {
       LOG(kWarning) << "Invalid minor version " << version;
       return kInvalidVersion;
     }
 
-    patch_level = static_cast<int16_t>(std::stoi(*itr));
+    patch_level = std::stoi(*itr);
     if ((*itr++).size() != 3U) {
       LOG(kWarning) << "Invalid patch level " << version;
       return kInvalidVersion;
@@ -246,7 +246,8 @@ int VersionToInt(const std::string& version) {
     return kInvalidVersion;
   }
 
-  if (major_version < 0 || minor_version < 0 || patch_level < 0) {
+  if (major_version < 0 || minor_version < 0 || patch_level < 0 ||
+      major_version > (std::numeric_limits<int>::max() - (minor_version * 1000) - patch_level) / 10000) {
     LOG(kWarning) << "Invalid version " << version;
     return kInvalidVersion;
   }
-- 
2.43.0


From 08290fca59d1fd5aff50cf69474e9d7c0c33bba6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:04:13 +0000
Subject: [PATCH 21/47] fix: random sizes from the whole 32-bit range divided
 by zero

---
 src/maidsafe/common/utils.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index dc8595b..35ba25e 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -151,6 +151,12 @@ IntType RandomInt() {
   return distribution(detail::random_number_generator());
 }
 
+// A size between 'min' and 'max' inclusive.  The number of such sizes needn't fit in 32 bits.
+uint32_t RandomSize(uint32_t min, uint32_t max) {
+  return static_cast<uint32_t>(RandomInt<uint32_t>() % (static_cast<uint64_t>(max) - min + 1)) +
+         min;
+}
+
 }  // unnamed namespace
 
 namespace detail {
@@ -266,13 +272,13 @@ uint32_t RandomUint32() { return RandomInt<uint32_t>(); }
 std::string RandomString(size_t size) { return GetRandomString<std::string>(size); }
 
 std::string RandomString(uint32_t min, uint32_t max) {
-  return GetRandomString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::string>(RandomSize(min, max));
 }
 
 std::vector<byte> RandomBytes(size_t size) { return GetRandomString<std::vector<byte>>(size); }
 
 std::vector<byte> RandomBytes(uint32_t min, uint32_t max) {
-  return GetRandomString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::vector<byte>>(RandomSize(min, max));
 }
 
 std::string RandomAlphaNumericString(size_t size) {
@@ -280,7 +286,7 @@ std::string RandomAlphaNumericString(size_t size) {
 }
 
 std::string RandomAlphaNumericString(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::string>(RandomSize(min, max));
 }
 
 std::vector<byte> RandomAlphaNumericBytes(size_t size) {
@@ -288,7 +294,7 @@ std::vector<byte> RandomAlphaNumericBytes(size_t size) {
 }
 
 std::vector<byte> RandomAlphaNumericBytes(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::vector<byte>>(RandomSize(min, max));
 }
 
 std::string WstringToString(const std::wstring& input) {
-- 
2.43.0


From 4561ff0593b931d0175dc09f9593c00e68f3efa6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:08:44 +0000
Subject: [PATCH 22/47] fix: a command line left out a program path given in
 quotes

---
 src/maidsafe/common/process.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/process.cc b/src/maidsafe/common/process.cc
index 5f234f4..e46af3f 100644
--- a/src/maidsafe/common/process.cc
+++ b/src/maidsafe/common/process.cc
@@ -40,8 +40,10 @@ std::string ConcatenateArgs(const std::vector<std::string>& args) {
   if (!args.empty()) {
     // Wrap the first arg (which is the path to the exe) in quotes if it isn't already, in case it
     // contains spaces.
-    if (args[0].front() != '"')
+    if (args[0].empty() || args[0].front() != '"')
       result = '"' + args[0] + "\" ";
+    else
+      result = args[0] + ' ';
 
     result += std::accumulate(std::begin(args) + 1, std::end(args), std::string(""),
                               [](const std::string& lhs, const std::string& rhs) {
-- 
2.43.0


From 09d88b3cb5d51cee94de424020e8e1c3303eb0fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:10:47 +0000
Subject: [PATCH 23/47] fix: a database transaction decided on its rollback by
 an uninitialised flag

---
 src/maidsafe/common/sqlite3_wrapper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 1e34bfd..532510a 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -61,7 +61,8 @@ void Database::CheckPoint() {
 }
 
 
-Transaction::Transaction(Database& database_in) : kAttempts(200), database(database_in) {
+Transaction::Transaction(Database& database_in)
+    : kAttempts(200), committed(false), database(database_in) {
   std::string query("BEGIN IMMEDIATE TRANSACTION");  // immediate or exclusive transaction
   for (int i(0); i != kAttempts; ++i) {
     try {
-- 
2.43.0


From 793d3dbf136d6ab896ae1e5d6a5a4256a8b108f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:10:47 +0000
Subject: [PATCH 24/47] fix: a database which could not be opened was never
 closed

---
 src/maidsafe/common/sqlite3_wrapper.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 532510a..3cdb290 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -37,6 +37,7 @@ Database::Database(const boost::filesystem::path& filename, Mode mode)
   auto flags = static_cast<int>(mode);
   if (sqlite3_open_v2(filename.string().c_str(), &database, flags, NULL) != SQLITE_OK) {
     LOG(kError) << "Could not open DB at: " << filename << ".  Error: " << sqlite3_errmsg(database);
+    sqlite3_close(database);
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
   }
   assert(sqlite3_threadsafe());
-- 
2.43.0


From a372f252c75542dad65054011d341b57158ec1a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:10:47 +0000
Subject: [PATCH 25/47] fix: error texts of failed database queries were leaked

---
 src/maidsafe/common/sqlite3_wrapper.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 3cdb290..8ba4467 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -41,10 +41,9 @@ Database::Database(const boost::filesystem::path& filename, Mode mode)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
   }
   assert(sqlite3_threadsafe());
-  char* error_message = 0;
-  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, &error_message);
+  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, NULL);
   sqlite3_busy_timeout(database, 250);
   insertlimit = sqlite3_limit(database, SQLITE_LIMIT_VARIABLE_NUMBER, -1);
 }
@@ -122,6 +121,7 @@ void Transaction::Execute(const std::string& query) {
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_busy));
     } else if (result == SQLITE_NOTADB) {
       LOG(kError) << "DB not present";
+      sqlite3_free(error_message);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
     } else {
       LOG(kError) << "SQL error: " << error_message << ".  Return value: " << result
-- 
2.43.0


From 234ee97d0b80740ac624586a097a70057e983a85 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:10:47 +0000
Subject: [PATCH 26/47] fix: binding an empty blob indexed an empty vector and
 stored NULL

---
 src/maidsafe/common/sqlite3_wrapper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 8ba4467..b9ae8f2 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -170,7 +170,9 @@ void Statement::BindText(int row_index, const std::string& text) {
 
 void Statement::BindBlob(int row_index, const SerialisedData& blob) {
   assert(blob.size() < std::numeric_limits<int>::max());
-  auto return_value = sqlite3_bind_blob(statement, row_index, &blob[0],
+  // A null pointer would bind NULL rather than an empty blob.
+  auto return_value = sqlite3_bind_blob(statement, row_index,
+                                        blob.empty() ? static_cast<const void*>("") : blob.data(),
                                         static_cast<int>(blob.size()),
                                         reinterpret_cast<sqlite3_destructor_type>(-1));
                                         // SQLITE_TRANSIENT macro replaced with C++ cast
-- 
2.43.0


From 0bbabfcd1a2b1b74b4d5c0b6739cc5a9dbdf9510 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:25:38 +0000
Subject: [PATCH 27/47] fix: ReadFile returned zeros for what could not be read

---
 src/maidsafe/common/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 35ba25e..c5136f3 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -330,6 +330,10 @@ boost::expected<std::vector<byte>, common_error> ReadFile(const fs::path& file_p
 
     std::ifstream file_in(file_path.c_str(), std::ios::in | std::ios::binary);
     file_in.read(reinterpret_cast<char*>(&file_content[0]), file_size);
+    if (!file_in) {
+      LOG(kError) << "Failed to read all of file " << file_path;
+      return boost::make_unexpected(MakeError(CommonErrors::filesystem_io_error));
+    }
     file_in.close();
     return file_content;
   }
-- 
2.43.0


From cb019a2be604b9730be4947d0a410db0df8609e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:25:38 +0000
Subject: [PATCH 28/47] fix: WriteFile reported success for what could not be
 written

---
 src/maidsafe/common/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index c5136f3..1684248 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -357,6 +357,10 @@ bool WriteFile(const boost::filesystem::path& file_path, const std::vector<byte>
     }
     file_out.write(reinterpret_cast<const char*>(content.data()), content.size());
     file_out.close();
+    if (!file_out) {
+      LOG(kError) << "Failed to write all of file " << file_path;
+      return false;
+    }
   } catch (const std::exception& e) {
     LOG(kError) << "Failed to write file " << file_path << ": " << boost::diagnostic_information(e);
     return false;
-- 
2.43.0


From a02cf467bae376dc6b36ccd22cc09ee6bd211ad0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:39:25 +0000
Subject: [PATCH 29/47] fix: a version history accepted circular chains of
 versions

---
 .../common/data_types/structured_data_versions.cc         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 4b3c0a2..83a3b91 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -314,6 +314,10 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   if (NewVersionPreExists(old_version, new_version))
     return boost::none;
 
+  // A version can't be its own parent.
+  if (new_version == old_version)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+
   // Check we've not been asked to store two roots.
   bool is_root(!old_version.id.IsInitialised() || versions_.empty() || new_version.index == 0);
   if (is_root && root_.second != std::end(versions_) && !RootParentName().id.IsInitialised())
@@ -427,11 +431,11 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
   return std::async([this, itr, &version]() {
     VersionsItr versions_itr(itr);
     while (versions_itr != std::end(versions_)) {
+      if (versions_itr->first == version)
+        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       auto child_itr(std::begin(versions_itr->second->children));
       if (child_itr == std::end(versions_itr->second->children))
         return;
-      if ((*child_itr)->first == version)
-        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       std::vector<std::future<void>> check_futures;
       while (++child_itr != std::end(versions_itr->second->children))
         check_futures.emplace_back(CheckVersionNotInBranch(*child_itr, version));
-- 
2.43.0


From 3c00d6b1a95233529687ad5eef17ab280edc8e33 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:39:25 +0000
Subject: [PATCH 30/47] fix: the branch limit check of a version history used
 the missing parent of a root and refused versions adopting the root

---
 .../common/data_types/structured_data_versions.h      |  4 ++--
 .../common/data_types/structured_data_versions.cc     | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/maidsafe/common/data_types/structured_data_versions.h b/include/maidsafe/common/data_types/structured_data_versions.h
index 6458091..7de31a5 100644
--- a/include/maidsafe/common/data_types/structured_data_versions.h
+++ b/include/maidsafe/common/data_types/structured_data_versions.h
@@ -244,8 +244,8 @@ class StructuredDataVersions {
   void CheckForUnorphaning(Version& version, bool& unorphans_existing_root,
                            size_t& unorphan_count) const;
   std::future<void> CheckVersionNotInBranch(VersionsItr itr, const VersionName& version) const;
-  void CheckBranchCount(const Version& version, bool is_orphan, size_t unorphaned_count,
-                        bool& erase_existing_root) const;
+  void CheckBranchCount(const Version& version, bool is_root, bool is_orphan,
+                        size_t unorphaned_count, bool& erase_existing_root) const;
   boost::optional<VersionName> Insert(const Version& version, bool is_root, bool is_orphan,
                                       const VersionName& old_version, bool unorphans_existing_root,
                                       size_t unorphan_count, bool erase_existing_root);
diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 83a3b91..c723e54 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -350,7 +350,8 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   }
 
   // Handle case where we're about to exceed 'max_branches_'.
-  CheckBranchCount(version, is_orphan, unorphan_count, erase_existing_root);
+  CheckBranchCount(version, is_root, is_orphan,
+                   unorphan_count + (unorphans_existing_root ? 1U : 0U), erase_existing_root);
 
   // Finally, safe to now add details
   return Insert(version, is_root, is_orphan, old_version, unorphans_existing_root, unorphan_count,
@@ -446,13 +447,13 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
   });
 }
 
-void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_orphan,
-                                              size_t unorphaned_count,
+void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_root,
+                                              bool is_orphan, size_t unorphaned_count,
                                               bool& erase_existing_root) const {
   if (AtBranchesLimit() && unorphaned_count == 0) {
-    if (is_orphan || !version.second->parent->second->children.empty()) {
+    if (is_root || is_orphan || !version.second->parent->second->children.empty()) {
       // We're going to exceed limit - see if deleting 'root_' helps
-      bool root_is_tip_of_tree(root_.second != std::end(versions_) &&
+      bool root_is_tip_of_tree(!is_root && root_.second != std::end(versions_) &&
                                root_.second->second->children.empty());
       if (root_is_tip_of_tree)
         erase_existing_root = true;
-- 
2.43.0


From 1928120913709cb26464b04cb67c142c21ae6490 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:39:25 +0000
Subject: [PATCH 31/47] fix: a removed root of a version history was not
 replaced by the lowest orphan

---
 .../common/data_types/structured_data_versions.cc        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index c723e54..6b151ff 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -563,8 +563,13 @@ void StructuredDataVersions::ReplaceRoot() {
 
 void StructuredDataVersions::ReplaceRootFromOrphans() {
   assert(!orphans_.empty());
-  OrphanItr orphan_itr(
-      std::make_pair(std::begin(orphans_), std::begin(std::begin(orphans_)->second)));
+  // The sets of orphans are never empty, and each is ordered by VersionName.
+  auto lowest_itr(std::min_element(
+      std::begin(orphans_), std::end(orphans_),
+      [](const Orphans::value_type& lhs, const Orphans::value_type& rhs) {
+        return (*std::begin(lhs.second))->first < (*std::begin(rhs.second))->first;
+      }));
+  OrphanItr orphan_itr(std::make_pair(lowest_itr, std::begin(lowest_itr->second)));
   versions_.erase(root_.second);
   root_.first = orphan_itr.first->first;
   root_.second = *orphan_itr.second;
-- 
2.43.0


From 71d3d40bb312c779f9e1421b86627e928aa7620f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:50:34 +0000
Subject: [PATCH 32/47] fix: swapping version histories left orphans with the
 other history's end as parent

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 6b151ff..2dbf6fe 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -767,11 +767,11 @@ void swap(StructuredDataVersions& lhs, StructuredDataVersions& rhs) MAIDSAFE_NOE
   swap(lhs.orphans_, rhs.orphans_);
   for (const auto& lhs_orphans : lhs.orphans_) {
     for (auto lhs_orphan : lhs_orphans.second)
-      lhs_orphan->second->parent == std::end(lhs.versions_);
+      lhs_orphan->second->parent = std::end(lhs.versions_);
   }
   for (const auto& rhs_orphans : rhs.orphans_) {
     for (auto rhs_orphan : rhs_orphans.second)
-      rhs_orphan->second->parent == std::end(rhs.versions_);
+      rhs_orphan->second->parent = std::end(rhs.versions_);
   }
 }
 
-- 
2.43.0


From d1bf4b132bc7efc0cadd4597265d70d700b628f0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:50:34 +0000
Subject: [PATCH 33/47] fix: parsing a version history with an empty branch
 read before its first version

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 2dbf6fe..0398f58 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -180,6 +180,8 @@ void StructuredDataVersions::BranchFromCereal(
 
   // Handle first version in branch
   auto& serialised_branch(serialised_versions.branches[serialised_branch_index]);
+  if (serialised_branch.names.empty())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
   auto forking_child_count(serialised_branch.names.front().forking_child_count);
   auto itr(HandleFirstVersionInBranchFromCereal(parent_itr, serialised_branch));
 
-- 
2.43.0


From e8103e0f15546ead4aee30a4de00cd6030f40caa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:50:34 +0000
Subject: [PATCH 34/47] fix: merging into an empty version history used its
 missing root

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 0398f58..1d678d5 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -283,7 +283,8 @@ void StructuredDataVersions::BranchToCereal(
 
 void StructuredDataVersions::ApplySerialised(const serialised_type& serialised_data_versions) {
   StructuredDataVersions new_info(serialised_data_versions);
-  ApplyBranch(root_.first, root_.second, new_info);
+  if (root_.second != std::end(versions_))
+    ApplyBranch(root_.first, root_.second, new_info);
   for (const auto& orphan_set : orphans_) {
     for (const auto& orphan : orphan_set.second)
       ApplyBranch(orphan_set.first, orphan, new_info);
-- 
2.43.0


From 586466fc95a6238c859c91eb5af2e97710812a27 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:08:03 +0000
Subject: [PATCH 35/47] fix: the size of an incoming message was handled
 outside the connection's strand

---
 src/maidsafe/common/tcp/connection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 34f195e..b863dcd 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -110,7 +110,7 @@ void Connection::DoClose() {
 void Connection::ReadSize() {
   ConnectionPtr this_ptr{shared_from_this()};
   asio::async_read(socket_, asio::buffer(receiving_message_.size_buffer),
-                   [this_ptr](const std::error_code& ec, size_t bytes_transferred) {
+                   strand_.wrap([this_ptr](const std::error_code& ec, size_t bytes_transferred) {
     if (ec) {
       LOG(kInfo) << ec.message();
       return this_ptr->DoClose();
@@ -134,7 +134,7 @@ void Connection::ReadSize() {
 
     this_ptr->receiving_message_.data_buffer.resize(data_size);
     this_ptr->ReadData();
-  });
+  }));
 }
 
 void Connection::ReadData() {
-- 
2.43.0


From f2e4fc1bb6a96ab3b543be2e4447d90b300de22b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:08:03 +0000
Subject: [PATCH 36/47] fix: asio's error for an unsupported address family was
 never recognised, so IPv4 was never tried

---
 src/maidsafe/common/tcp/connection.cc | 3 +--
 src/maidsafe/common/tcp/listener.cc   | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index b863dcd..dfe35c4 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -61,8 +61,7 @@ Connection::Connection(asio::io_service::strand& strand, Port remote_port)
   std::error_code connect_error;
   // Try IPv6 first.
   socket_.connect(ip::tcp::endpoint{ip::address_v6::loopback(), remote_port}, connect_error);
-  if (connect_error &&
-      connect_error == std::make_error_code(std::errc::address_family_not_supported)) {
+  if (connect_error && connect_error == asio::error::address_family_not_supported) {
     // Try IPv4 now.
     socket_.connect(ip::tcp::endpoint{ip::address_v4::loopback(), remote_port}, connect_error);
   }
diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 4468c5f..8755884 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -21,6 +21,7 @@
 #include <condition_variable>
 #include <limits>
 
+#include "asio/error.hpp"
 #include "asio/post.hpp"
 #include "asio/wrap.hpp"
 
@@ -78,7 +79,7 @@ void Listener::DoStartListening(Port port) {
   try {
     acceptor_.open(endpoint.protocol());
   } catch (const std::system_error& error) {
-    if (error.code() == std::make_error_code(std::errc::address_family_not_supported)) {
+    if (error.code() == asio::error::address_family_not_supported) {
       // Try IPv4 now.
       endpoint = asio::ip::tcp::endpoint{asio::ip::address_v4::loopback(), port};
       acceptor_.open(endpoint.protocol());
-- 
2.43.0


From cb09424f2925d023e59883f7d1fe3422aaf1c956 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:08:03 +0000
Subject: [PATCH 37/47] fix: stopping a listener closed its acceptor outside
 the strand and after the listener could be gone

---
 src/maidsafe/common/tcp/listener.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 8755884..ab5f0a7 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -132,7 +132,8 @@ void Listener::HandleAccept(ConnectionPtr accepted_connection, const std::error_
 }
 
 void Listener::StopListening() {
-  asio::post(strand_.context().get_executor(), [this] { DoStopListening(); });
+  ListenerPtr this_ptr{shared_from_this()};
+  asio::post(strand_, [this_ptr] { this_ptr->DoStopListening(); });
 }
 
 void Listener::DoStopListening() {
-- 
2.43.0


From 221b76249a39a6140467452c3413dc254c3f7b18 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:32:03 +0000
Subject: [PATCH 38/47] fix: vault and session names of a vault-stopped message
 were not percent-encoded

---
 src/maidsafe/common/visualiser_log.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/visualiser_log.cc b/src/maidsafe/common/visualiser_log.cc
index c2975d4..2bd66af 100644
--- a/src/maidsafe/common/visualiser_log.cc
+++ b/src/maidsafe/common/visualiser_log.cc
@@ -79,9 +79,9 @@ VisualiserLogMessage::~VisualiserLogMessage() {
 void VisualiserLogMessage::SendVaultStoppedMessage(const std::string& vault_debug_id,
                                                    const std::string& session_id, int exit_code) {
   try {
-    std::string message{"ts=" + UrlEncode(detail::GetUTCTime()) + "&vaultId=" + vault_debug_id +
-                        "&sessionId=" + session_id + "&actionId=18&valueOne=" +
-                        std::to_string(exit_code)};
+    std::string message{"ts=" + UrlEncode(detail::GetUTCTime()) + "&vaultId=" +
+                        UrlEncode(vault_debug_id) + "&sessionId=" + UrlEncode(session_id) +
+                        "&actionId=18&valueOne=" + std::to_string(exit_code)};
     auto post_functor([message] { Logging::Instance().WriteToVisualiserServer(message); });
     Logging::Instance().Send(post_functor);
   } catch (const std::exception& e) {
-- 
2.43.0


From 58770b477ad2339f31026dece8fa0018a732a4f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:38:21 +0000
Subject: [PATCH 39/47] fix: recovering data from no shares at all read the
 first share

---
 src/maidsafe/common/crypto.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index 62475c2..80e1475 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -192,6 +192,10 @@ DataParts SecretShareData(int32_t threshold, int32_t number_of_shares, const Pla
 }
 
 PlainText SecretRecoverData(const DataParts& parts) {
+  if (parts.empty()) {
+    LOG(kError) << "No parts to recover data from.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * parts.front().size());
@@ -248,6 +252,10 @@ DataParts InfoDisperse(int32_t threshold, int32_t number_of_shares, const PlainT
 }
 
 PlainText InfoRetrieve(const DataParts& parts) {
+  if (parts.empty()) {
+    LOG(kError) << "No parts to retrieve data from.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * (parts.front().size() - 4));
-- 
2.43.0


From 22e210af39c00d5cbc55ddf082e8a3fdca198c83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:54:20 +0000
Subject: [PATCH 40/47] fix: deleting from a data buffer by predicate left the
 files and the disk usage behind

---
 src/maidsafe/common/data_buffer.cc | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5d1ccd1..ae84930 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -292,13 +292,26 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
     if (memory_store_.index.size() != before_size)
       memory_store_.cond_var.notify_all();
   }
-  std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-  auto before_size(disk_store_.index.size());
-  disk_store_.index.erase(
-      std::remove_if(std::begin(disk_store_.index), std::end(disk_store_.index),
-                     [&](const DiskElement& item) { return predicate(item.key); }),
-      std::end(disk_store_.index));
-  if (disk_store_.index.size() != before_size)
+  bool changed(false);
+  {
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
+    auto itr(disk_store_.index.begin());
+    while (itr != disk_store_.index.end()) {
+      if ((*itr).state == StoringState::kCancelled || !predicate((*itr).key)) {
+        ++itr;
+        continue;
+      }
+      changed = true;
+      if ((*itr).state == StoringState::kStarted) {
+        (*itr).state = StoringState::kCancelled;
+        ++itr;
+      } else {
+        RemoveFile((*itr).key, nullptr);
+        itr = disk_store_.index.erase(itr);
+      }
+    }
+  }
+  if (changed)
     disk_store_.cond_var.notify_all();
 }
 
-- 
2.43.0


From a3b23f2c11d93124d4f00b46db65ad2c440ea82c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:56:13 +0000
Subject: [PATCH 41/47] fix: a data buffer confused disk entries of one key,
 missed cancellations and never wrote a re-stored value

---
 include/maidsafe/common/data_buffer.h | 16 ++---
 src/maidsafe/common/data_buffer.cc    | 85 ++++++++++++---------------
 2 files changed, 46 insertions(+), 55 deletions(-)

diff --git a/include/maidsafe/common/data_buffer.h b/include/maidsafe/common/data_buffer.h
index bcac0bc..a5630f8 100644
--- a/include/maidsafe/common/data_buffer.h
+++ b/include/maidsafe/common/data_buffer.h
@@ -25,7 +25,7 @@
 #include <deque>
 #include <functional>
 #include <future>
-#include <map>
+#include <list>
 #include <mutex>
 #include <string>
 
@@ -118,11 +118,14 @@ class DataBuffer {
   using MemoryIndex = std::deque<MemoryElement>;
 
   struct DiskElement {
-    explicit DiskElement(KeyType key_in) : key(std::move(key_in)), state(StoringState::kStarted) {}
+    explicit DiskElement(KeyType key_in)
+        : key(std::move(key_in)), state(StoringState::kStarted), value(nullptr) {}
     KeyType key;
     StoringState state;
+    const NonEmptyString* value;  // Set while waiting for space on disk.
   };
-  using DiskIndex = std::deque<DiskElement>;
+  // A list, since a waiting 'Store' holds an iterator to its own element.
+  using DiskIndex = std::list<DiskElement>;
 
   void Init();
 
@@ -131,8 +134,8 @@ class DataBuffer {
                             std::unique_lock<std::mutex>& memory_store_lock);
   void StoreOnDisk(const KeyType& key, const NonEmptyString& value,
                    std::unique_lock<std::mutex>&& disk_store_lock);
-  void WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
-                          std::unique_lock<std::mutex>& disk_store_lock, bool& cancelled);
+  void WaitForSpaceOnDisk(DiskIndex::iterator itr, const NonEmptyString& value,
+                          std::unique_lock<std::mutex>& disk_store_lock);
   void DeleteFromMemory(const KeyType& key, StoringState& also_on_disk);
   void DeleteFromDisk(const KeyType& key);
   void RemoveFile(const KeyType& key, NonEmptyString* value);
@@ -152,7 +155,7 @@ class DataBuffer {
   MemoryIndex::iterator FindMemoryRemovalCandidate(
       uint64_t required_space, std::unique_lock<std::mutex>& memory_store_lock);
 
-  DiskIndex::iterator FindStartedToStoreOnDisk(const KeyType& key);
+  DiskIndex::iterator FindOnDisk(const KeyType& key);
   DiskIndex::iterator FindOldestOnDisk();
 
   DiskIndex::iterator FindAndThrowIfCancelled(const KeyType& key);
@@ -164,7 +167,6 @@ class DataBuffer {
   const PopFunctor kPopFunctor_;
   const boost::filesystem::path kDiskBuffer_;
   const bool kShouldRemoveRoot_;
-  std::map<KeyType, const NonEmptyString*> elements_being_moved_to_disk_{};
   std::atomic<bool> running_{true};
   std::mutex worker_mutex_{};
   std::future<void> worker_{};
diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index ae84930..e78424e 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -174,64 +174,54 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
     StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
-  disk_store_.index.emplace_back(key);
-
-  bool cancelled(false);
-  WaitForSpaceOnDisk(key, &value, disk_store_lock, cancelled);
-  if (!running_)
+  auto itr(disk_store_.index.emplace(disk_store_.index.end(), key));
+  try {
+    WaitForSpaceOnDisk(itr, value, disk_store_lock);
+  } catch (const std::exception&) {
+    disk_store_.index.erase(itr);
+    throw;
+  }
+  if (!running_) {
+    disk_store_.index.erase(itr);
     return;
+  }
 
-  if (!cancelled) {
+  if ((*itr).state == StoringState::kCancelled) {
+    disk_store_.index.erase(itr);
+  } else {
     if (!WriteFile(GetFilename(key), value.string())) {
       LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
+      disk_store_.index.erase(itr);
       StopRunning();
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
     }
-    auto itr(FindStartedToStoreOnDisk(key));
-    if (itr != disk_store_.index.end())
-      (*itr).state = StoringState::kCompleted;
-
+    (*itr).state = StoringState::kCompleted;
     disk_store_.current.data += value.string().size();
   }
   disk_store_lock.unlock();
   disk_store_.cond_var.notify_all();
 }
 
-void DataBuffer::WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
-                                    std::unique_lock<std::mutex>& disk_store_lock,
-                                    bool& cancelled) {
-  while (!HasSpace(disk_store_, value->string().size()) && running_) {
-    auto itr(Find(disk_store_, key));
-    if (itr == disk_store_.index.end()) {
-      cancelled = true;
-      return;
-    }
-
-    if ((*itr).state == StoringState::kCancelled) {
-      disk_store_.index.erase(itr);
-      cancelled = true;
-      return;
-    }
-
+void DataBuffer::WaitForSpaceOnDisk(DiskIndex::iterator itr, const NonEmptyString& value,
+                                    std::unique_lock<std::mutex>& disk_store_lock) {
+  while (!HasSpace(disk_store_, value.string().size()) && running_ &&
+         (*itr).state != StoringState::kCancelled) {
     if (kPopFunctor_) {
-      itr = FindOldestOnDisk();
-      assert((*itr).state != StoringState::kStarted);
-      if ((*itr).state == StoringState::kCompleted) {
-        KeyType oldest_key(itr->key);
+      auto oldest_itr(FindOldestOnDisk());
+      assert((*oldest_itr).state != StoringState::kStarted);
+      if ((*oldest_itr).state == StoringState::kCompleted) {
+        KeyType oldest_key(oldest_itr->key);
         NonEmptyString oldest_value;
         RemoveFile(oldest_key, &oldest_value);
-        disk_store_.index.erase(itr);
+        disk_store_.index.erase(oldest_itr);
         kPopFunctor_(oldest_key, oldest_value);
       }
     } else {
       // Rely on client of this class to call Delete until enough space becomes available.  Make the
-      // current value available for 'Get' (avoid 'Get' permanent blocking) by adding to
-      // 'elements_being_moved_to_disk_'.
-      if (running_) {
-        elements_being_moved_to_disk_[key] = value;
-        disk_store_.cond_var.wait(disk_store_lock);
-        elements_being_moved_to_disk_.erase(key);
-      }
+      // current value available for 'Get' (avoid 'Get' permanent blocking).
+      (*itr).value = &value;
+      disk_store_.cond_var.wait(disk_store_lock);
+      (*itr).value = nullptr;
     }
   }
 }
@@ -247,11 +237,10 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
   std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
   auto itr(FindAndThrowIfCancelled(key));
   if ((*itr).state == StoringState::kStarted) {
-    auto temp_itr(elements_being_moved_to_disk_.find(key));
-    if (temp_itr != std::end(elements_being_moved_to_disk_))
-      return *temp_itr->second;
+    if ((*itr).value)
+      return *(*itr).value;
     disk_store_.cond_var.wait(disk_store_lock, [this, &key]() -> bool {
-      auto itr(Find(disk_store_, key));
+      auto itr(FindOnDisk(key));
       return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted);
     });
     itr = FindAndThrowIfCancelled(key);
@@ -337,7 +326,7 @@ void DataBuffer::DeleteFromMemory(const KeyType& key, StoringState& also_on_disk
 void DataBuffer::DeleteFromDisk(const KeyType& key) {
   {
     std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-    auto itr(Find(disk_store_, key));
+    auto itr(FindOnDisk(key));
     if (itr == disk_store_.index.end()) {
       LOG(kWarning) << DebugKeyName(key) << " is not in the disk index.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
@@ -400,7 +389,7 @@ void DataBuffer::CopyQueueToDisk() {
       StoreOnDisk(key, value, std::move(disk_store_lock));
       memory_store_lock.lock();
       itr = Find(memory_store_, key);
-      if (itr != memory_store_.index.end())
+      if (itr != memory_store_.index.end() && (*itr).also_on_disk == StoringState::kStarted)
         (*itr).also_on_disk = StoringState::kCompleted;
     }
     memory_store_.cond_var.notify_all();
@@ -490,18 +479,18 @@ DataBuffer::MemoryIndex::iterator DataBuffer::FindMemoryRemovalCandidate(
   return itr;
 }
 
-DataBuffer::DiskIndex::iterator DataBuffer::FindStartedToStoreOnDisk(const KeyType& key) {
+DataBuffer::DiskIndex::iterator DataBuffer::FindOnDisk(const KeyType& key) {
   return std::find_if(disk_store_.index.begin(), disk_store_.index.end(),
                       [&key](const DiskElement& entry) {
-    return entry.state == StoringState::kStarted && entry.key == key;
+    return entry.state != StoringState::kCancelled && entry.key == key;
   });
 }
 
 DataBuffer::DiskIndex::iterator DataBuffer::FindOldestOnDisk() { return disk_store_.index.begin(); }
 
 DataBuffer::DiskIndex::iterator DataBuffer::FindAndThrowIfCancelled(const KeyType& key) {
-  auto itr(Find(disk_store_, key));
-  if (itr == disk_store_.index.end() || (*itr).state == StoringState::kCancelled) {
+  auto itr(FindOnDisk(key));
+  if (itr == disk_store_.index.end()) {
     LOG(kWarning) << DebugKeyName(key) << " is not in the disk index or is cancelled.";
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
   }
-- 
2.43.0


From aab369a4d61b3fe29028f6a1e43a49417df76587 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:56:13 +0000
Subject: [PATCH 42/47] fix: a stopped data buffer reported stores as done,
 could deadlock, and stopped for a value that is too large

---
 src/maidsafe/common/data_buffer.cc | 35 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index e78424e..5386c81 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -77,14 +77,7 @@ void DataBuffer::Init() {
 }
 
 DataBuffer::~DataBuffer() {
-  {
-    std::lock(memory_store_.mutex, disk_store_.mutex);
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
-    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
-    running_ = false;
-    memory_store_.cond_var.notify_all();
-    disk_store_.cond_var.notify_all();
-  }
+  StopRunning();
   {
     std::unique_lock<std::mutex> worker_lock(worker_mutex_);
     while (worker_.valid() &&
@@ -136,12 +129,9 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
     WaitForSpaceInMemory(required_space, memory_store_lock);
 
     if (!running_) {
-      {
-        std::lock_guard<std::mutex> worker_lock(worker_mutex_);
-        if (worker_.valid())
-          worker_.get();
-      }
-      return std::move(std::unique_lock<std::mutex>());
+      // The worker may need the lock in order to finish.
+      memory_store_lock.unlock();
+      CheckWorkerIsStillRunning();
     }
 
     memory_store_.current.data += required_space;
@@ -171,7 +161,6 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   if (value.string().size() > disk_store_.max) {
     LOG(kError) << "Cannot store " << DebugKeyName(key) << " since its " << value.string().size()
                 << " bytes exceeds max of " << disk_store_.max << " bytes.";
-    StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
   auto itr(disk_store_.index.emplace(disk_store_.index.end(), key));
@@ -183,7 +172,8 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   }
   if (!running_) {
     disk_store_.index.erase(itr);
-    return;
+    LOG(kError) << "Stopped before " << DebugKeyName(key) << " was moved to disk.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
   }
 
   if ((*itr).state == StoringState::kCancelled) {
@@ -192,6 +182,7 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
     if (!WriteFile(GetFilename(key), value.string())) {
       LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
       disk_store_.index.erase(itr);
+      disk_store_lock.unlock();
       StopRunning();
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
     }
@@ -386,7 +377,14 @@ void DataBuffer::CopyQueueToDisk() {
       (*itr).also_on_disk = StoringState::kStarted;
       std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
       memory_store_lock.unlock();
-      StoreOnDisk(key, value, std::move(disk_store_lock));
+      try {
+        StoreOnDisk(key, value, std::move(disk_store_lock));
+      } catch (const std::exception&) {
+        if (disk_store_lock)
+          disk_store_lock.unlock();
+        StopRunning();
+        throw;
+      }
       memory_store_lock.lock();
       itr = Find(memory_store_, key);
       if (itr != memory_store_.index.end() && (*itr).also_on_disk == StoringState::kStarted)
@@ -410,6 +408,9 @@ void DataBuffer::CheckWorkerIsStillRunning() {
 }
 
 void DataBuffer::StopRunning() {
+  std::lock(memory_store_.mutex, disk_store_.mutex);
+  std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+  std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
   running_ = false;
   memory_store_.cond_var.notify_all();
   disk_store_.cond_var.notify_all();
-- 
2.43.0


From 5597ab0b048070258e70f9da09ba0bb8d1c0a45a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:56:13 +0000
Subject: [PATCH 43/47] fix: a data buffer read its limits unlocked and ignored
 one lowered below the size waited for

---
 src/maidsafe/common/data_buffer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5386c81..95f06be 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -422,7 +422,9 @@ fs::path DataBuffer::GetFilename(const KeyType& key) const {
 
 void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
   {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (max_memory_usage > disk_store_.max) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
@@ -435,7 +437,9 @@ void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
 void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
   bool increased(false);
   {
-    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (memory_store_.max > max_disk_usage) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
@@ -449,8 +453,8 @@ void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
 
 template <typename T>
 bool DataBuffer::HasSpace(const T& store, uint64_t required_space) const {
-  assert(store.max >= required_space);
-  return store.current <= store.max - required_space;
+  // The maximum may have been lowered while waiting for space.
+  return required_space <= store.max && store.current <= store.max - required_space;
 }
 
 template <typename T>
-- 
2.43.0


From f1df051858951d69db652fe1219edf1fd9084c4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:17:08 +0000
Subject: [PATCH 44/47] fix: deleting from a data buffer could remove a value
 being stored from disk only

---
 src/maidsafe/common/data_buffer.cc | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 95f06be..ca9fc97 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -247,6 +247,9 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
 
 void DataBuffer::Delete(const KeyType& key) {
   CheckWorkerIsStillRunning();
+  // Keep the memory locked until done with the disk, so that a value which is being stored at the
+  // same time can't be missed in memory and be deleted from disk only.
+  std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
   StoringState also_on_disk(StoringState::kNotStarted);
   DeleteFromMemory(key, also_on_disk);
   if (also_on_disk != StoringState::kNotStarted)
@@ -255,8 +258,8 @@ void DataBuffer::Delete(const KeyType& key) {
 
 void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
   CheckWorkerIsStillRunning();
+  std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
   {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
     auto before_size(memory_store_.index.size());
     memory_store_.index.erase(std::remove_if(std::begin(memory_store_.index),
                                              std::end(memory_store_.index),
@@ -296,22 +299,16 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
 }
 
 void DataBuffer::DeleteFromMemory(const KeyType& key, StoringState& also_on_disk) {
-  bool changed(false);
-  {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
-    auto itr(Find(memory_store_, key));
-    if (itr != memory_store_.index.end()) {
-      also_on_disk = (*itr).also_on_disk;
-      memory_store_.current.data -= (*itr).value.string().size();
-      memory_store_.index.erase(itr);
-      changed = true;
-    } else {
-      // Assume it's on disk so as to invoke a DeleteFromDisk
-      also_on_disk = StoringState::kCompleted;
-    }
-  }
-  if (changed)
+  auto itr(Find(memory_store_, key));
+  if (itr != memory_store_.index.end()) {
+    also_on_disk = (*itr).also_on_disk;
+    memory_store_.current.data -= (*itr).value.string().size();
+    memory_store_.index.erase(itr);
     memory_store_.cond_var.notify_all();
+  } else {
+    // Assume it's on disk so as to invoke a DeleteFromDisk
+    also_on_disk = StoringState::kCompleted;
+  }
 }
 
 void DataBuffer::DeleteFromDisk(const KeyType& key) {
-- 
2.43.0


From 3e4aa9a6d90c0763c398d33861e40c22a310dc9c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 08:22:57 +0000
Subject: [PATCH 45/47] fix: refuse a serialised flyweight that refers to no
 value

The id of a flyweight read from an archive can be 0, which stands for the null
pointer. This was only asserted, so without assertions the null pointer was
dereferenced on such input.
---
 include/maidsafe/common/serialisation/types/boost_flyweight.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maidsafe/common/serialisation/types/boost_flyweight.h b/include/maidsafe/common/serialisation/types/boost_flyweight.h
index d611b71..ba5bc54 100644
--- a/include/maidsafe/common/serialisation/types/boost_flyweight.h
+++ b/include/maidsafe/common/serialisation/types/boost_flyweight.h
@@ -19,7 +19,6 @@
 #ifndef MAIDSAFE_COMMON_SERIALISATION_TYPES_BOOST_FLYWEIGHT_H_
 #define MAIDSAFE_COMMON_SERIALISATION_TYPES_BOOST_FLYWEIGHT_H_
 
-#include <cassert>
 #include <memory>
 
 #ifdef _MSC_VER
@@ -69,7 +68,8 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& archive, boost::flyweight<Type, Params..
     ptr = std::static_pointer_cast<Helper>(archive.getSharedPointer(id));
   }
 
-  assert(ptr != nullptr);
+  if (!ptr)
+    throw Exception("Error while trying to deserialize a flyweight. It has no value.");
   flyweight = ptr->value;
 }
 
-- 
2.43.0


From 5b958b3b4f325e093a51a39ddc40e24816b6d849 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 08:35:21 +0000
Subject: [PATCH 46/47] fix: leading zeros in the fraction of a log time stamp

The nanoseconds follow the decimal point but were written without leading
zeros, so 5 ns past the second read as half a second past it and stamps within
a second did not sort by time.
---
 src/maidsafe/common/log.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 4567ba9..7444bcb 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -424,8 +424,10 @@ std::string GetTime() {
   std::time_t now_t(std::chrono::system_clock::to_time_t(
       std::chrono::system_clock::time_point(seconds_since_epoch)));
 
-  return Strftime<time_type>(&now_t) +
-         std::to_string((now.time_since_epoch() - seconds_since_epoch).count());
+  // Leading zeros are needed: the fraction follows the decimal point.
+  const std::string fraction(std::to_string((now.time_since_epoch() - seconds_since_epoch).count()));
+  const auto digits(std::to_string(std::chrono::system_clock::period::den).size() - 1);
+  return Strftime<time_type>(&now_t) + std::string(digits - fraction.size(), '0') + fraction;
 }
 
 }  // unnamed namespace
-- 
2.43.0


From 861ebd60278eac7365cbb9554a886ca575d60ef6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 08:39:55 +0000
Subject: [PATCH 47/47] fix: no account entry or no HOME crashed the search for
 the home directory

getpwuid and getenv return null pointers for a user without an account entry
(as in many containers) and for a variable which is not set; both were used
without a check, so the documented empty path was never reached.
---
 include/maidsafe/common/application_support_directories.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/maidsafe/common/application_support_directories.h b/include/maidsafe/common/application_support_directories.h
index cc6af9e..8f0d123 100644
--- a/include/maidsafe/common/application_support_directories.h
+++ b/include/maidsafe/common/application_support_directories.h
@@ -56,11 +56,11 @@ inline boost::filesystem::path GetHomeDir() {
     return boost::filesystem::path(env_home_drive + env_home2);
 #elif defined(MAIDSAFE_APPLE) || defined(MAIDSAFE_LINUX)
   struct passwd* p = getpwuid(getuid());  // NOLINT (dirvine)
-  std::string home(p->pw_dir);
+  std::string home(p && p->pw_dir ? p->pw_dir : "");
   if (!home.empty())
     return boost::filesystem::path(home);
-  std::string env_home(std::getenv("HOME"));
-  if (!env_home.empty())
+  const char* env_home = std::getenv("HOME");
+  if (env_home && *env_home)
     return boost::filesystem::path(env_home);
 #endif
   LOG(kError) << "Cannot deduce home directory path";
-- 
2.43.0

