From 43171a57950cce0b6f66eecedb7d64691dc6c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:25 +0000
Subject: [PATCH 01/22] fix: refuse flush thresholds that do not fit 64 bits
 instead of wrapping

---
 src/sink/file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 8c4cf66..a5566a8 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -1,6 +1,7 @@
 #include "blackhole/sink/file.hpp"
 
 #include <cctype>
+#include <limits>
 
 #include <boost/lexical_cast.hpp>
 #include <boost/optional/optional.hpp>
@@ -76,6 +77,10 @@ auto parse_dunit(const std::string& encoded) -> std::uint64_t {
         throw std::invalid_argument("unknown data unit - " + unit);
     }
 
+    if (base > std::numeric_limits<std::uint64_t>::max() / it->second) {
+        throw std::invalid_argument("data amount is too large - " + encoded);
+    }
+
     return base * it->second;
 }
 
-- 
2.43.0


From 064a86d74318534f64bd473f80a086f22ce84a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 02/22] fix: write an empty string reference as empty text, not
 as a C string

---
 include/blackhole/extensions/format.hpp | 2 +-
 src/format.cpp                          | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index 45fac32..c622620 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -1235,7 +1235,7 @@ class ArgVisitor {
       return FMT_DISPATCH(visit_long_double(arg.long_double_value));
     case Arg::CSTRING: {
       Arg::StringValue<char> str = arg.string;
-      str.size = 0;
+      str.size = static_cast<std::size_t>(-1);  // Not known yet, NUL-terminated.
       return FMT_DISPATCH(visit_string(str));
     }
     case Arg::STRING:
diff --git a/src/format.cpp b/src/format.cpp
index 575e4b7..ad368d6 100644
--- a/src/format.cpp
+++ b/src/format.cpp
@@ -795,13 +795,12 @@ void fmt::BasicWriter<Char>::write_str(
     internal::report_unknown_type(spec.type_, "string");
   const StrChar *str_value = s.value;
   std::size_t str_size = s.size;
-  if (str_size == 0) {
+  if (str_size == static_cast<std::size_t>(-1)) {
     if (!str_value) {
       FMT_THROW(FormatError("string pointer is null"));
       return;
     }
-    if (*str_value)
-      str_size = std::char_traits<StrChar>::length(str_value);
+    str_size = std::char_traits<StrChar>::length(str_value);
   }
   std::size_t precision = spec.precision_;
   if (spec.precision_ >= 0 && precision < str_size)
-- 
2.43.0


From dd140e444f18cb202e63b184893914508ead6a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 03/22] fix: format string attributes by their length, not as C
 strings

---
 src/formatter/json.cpp   | 2 +-
 src/formatter/string.cpp | 2 +-
 src/formatter/tskv.cpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 4d7e260..327cc30 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -96,7 +96,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 1f54687..5997cca 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -82,7 +82,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, string_ref(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 8c572e9..fcf686c 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -44,7 +44,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
-- 
2.43.0


From 9659c471bf0fd6fd618b8bf0477492a1b2184f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 04/22] fix: escape field names in TSKV like values, let remove
 and rename apply to tid

---
 src/formatter/tskv.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index fcf686c..7cd52b1 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -95,7 +95,11 @@ public:
     }
 
     auto add_tid() -> void {
-        wr.write("\ttid={:#x}",
+        if (data.removed.count("tid") > 0) {
+            return;
+        }
+        add_key("tid");
+        wr.write("={:#x}",
 #ifdef __linux__
             record.tid()
 #elif __APPLE__
@@ -184,7 +188,7 @@ private:
                 wr.inner << "\\=";
                 break;
             default:
-                wr.inner << *it;
+                write_escaped_val(string_view(it, 1));
             };
         }
     }
-- 
2.43.0


From d36efd178b40c251e13280f0bcac701964b498ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 05/22] fix: escape constant values in TSKV like any other
 value

---
 src/formatter/tskv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 7cd52b1..eb9a6b5 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -124,7 +124,7 @@ public:
 
     auto add_constants() -> void {
         for (const auto& kv : data.attributes) {
-            add(kv.first, kv.second);
+            add(kv.first, string_view(kv.second));
         }
     }
 
-- 
2.43.0


From f7c440c3e4d8cdc431a1f77acf7b11f90c68df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:27 +0000
Subject: [PATCH 06/22] fix: local time honours daylight saving and its UTC
 offset, UTC time names its zone

---
 src/util/time.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/util/time.hpp b/src/util/time.hpp
index a41f6d9..c4a4575 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -66,6 +66,8 @@ static auto gmtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
     tp->tm_yday = yday;
     tp->tm_wday = static_cast<int>(wday);
     tp->tm_isdst = 0;
+    tp->tm_gmtoff = 0;
+    tp->tm_zone = "GMT";
 
     return tp;
 }
@@ -83,12 +85,7 @@ static const tzinit_t tz;
 #pragma clang diagnostic pop
 
 static auto localtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
-    time_t time = *t - timezone;
-    gmtime_r(&time, tp);
-    tp->tm_gmtoff = timezone;
-    tp->tm_zone = *tzname;
-
-    return tp;
+    return ::localtime_r(t, tp);
 }
 
 } // namespace v1
-- 
2.43.0


From a075dea6439518426bbbafd9df36992bb3216bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:27 +0000
Subject: [PATCH 07/22] fix: %% is an escaped percent sign in timestamp
 patterns, %s leaves the time of later conversions alone

---
 src/datetime/generator.linux.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 4186ac1..181d56a 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -31,7 +31,9 @@ struct visitor_t : public boost::static_visitor<> {
     }
 
     auto operator()(epoch_t) -> void {
-        stream.write("{}", std::mktime(&tm));
+        // Note, that `mktime` normalizes the given time in place.
+        std::tm copy = tm;
+        stream.write("{}", std::mktime(&copy));
     }
 
     auto operator()(usecond_t) -> void {
@@ -46,7 +48,12 @@ generator_t::generator_t(std::string pattern) {
 
     auto pos = std::begin(pattern);
     while (pos != std::end(pattern)) {
-        if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%f")) {
+        if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%%")) {
+            // An escaped percent sign, it must not start a placeholder.
+            literal.append("%%");
+            ++pos;
+            ++pos;
+        } else if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%f")) {
             tokens.emplace_back(literal_t{std::move(literal)});
             tokens.emplace_back(usecond_t{});
             literal.clear();
-- 
2.43.0


From 3760308e466f2b52db4ac48ffd61298b1c6248ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:27 +0000
Subject: [PATCH 08/22] fix: negative severities are written as such by a
 string formatter with configured severity names

---
 src/formatter/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 5997cca..a7b85a1 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -385,9 +385,9 @@ auto factory<string_t>::from(const config::node_t& config) const -> std::unique_
             sevmap.emplace_back(config.to_string());
         });
 
-        auto fn = [=](std::size_t severity, const std::string& spec, writer_t& writer) {
-            if (severity < sevmap.size()) {
-                writer.write(spec, sevmap[severity]);
+        auto fn = [=](int severity, const std::string& spec, writer_t& writer) {
+            if (severity >= 0 && static_cast<std::size_t>(severity) < sevmap.size()) {
+                writer.write(spec, sevmap[static_cast<std::size_t>(severity)]);
             } else {
                 writer.write(spec, severity);
             }
-- 
2.43.0


From 8b8a342e2ec70a23c6ab888bc302fd40abb6f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:32 +0000
Subject: [PATCH 09/22] fix: construct asynchronous events in the raw memory
 the queue hands out instead of assigning to it

---
 src/sink/asynchronous.p.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index de9f014..c7949b4 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -92,6 +92,8 @@ auto asynchronous_t::capacity() const -> std::size_t {
 }
 
 auto asynchronous_t::emit(const record_t& record, const string_view& message) -> void {
+    value_type item{recordbuf_t(record), message.to_string()};
+
     while (true) {
         // TODO: Uncomment.
         // switch (filter->filter(record, message)) {
@@ -103,7 +105,8 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
         // }
 
         const auto enqueued = queue.enqueue_with([&](value_type& value) {
-            value = {recordbuf_t(record), message.to_string()};
+            // The queue hands out raw memory and destroys the value itself after dequeueing.
+            new (&value) value_type(std::move(item));
         });
 
         if (enqueued) {
-- 
2.43.0


From 6876e8b8895079e4559e059a9436e680ba307ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:32 +0000
Subject: [PATCH 10/22] fix: an asynchronous sink delivers everything accepted
 before its destruction

---
 src/sink/asynchronous.p.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index c7949b4..8552a96 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -125,12 +125,15 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
 
 auto asynchronous_t::run() -> void {
     while (true) {
+        // Must be read before dequeueing, otherwise events enqueued in between are lost.
+        const bool stopping = stopped;
+
         value_type result;
         const auto dequeued = queue.dequeue_with([&](value_type& value) {
             result = std::move(value);
         });
 
-        if (stopped && !dequeued) {
+        if (stopping && !dequeued) {
             return;
         }
 
-- 
2.43.0


From 23cc606037dd30576408823da96de6da9df2c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:32 +0000
Subject: [PATCH 11/22] fix: exceptions of the wrapped sink do not terminate
 the thread of an asynchronous one

---
 src/sink/asynchronous.p.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index 8552a96..e54da58 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -142,7 +142,6 @@ auto asynchronous_t::run() -> void {
                 wrapped->emit(result.record.into_view(), result.message);
                 overflow_policy->wakeup();
             } catch (...) {
-                throw;
                 // TODO: exception_policy->process();
             }
         } else {
-- 
2.43.0


From 18af687a61d145f2bdb92094b6637cf79c15a105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:32 +0000
Subject: [PATCH 12/22] fix: the asynchronous sink builder honours the chosen
 overflow policy

---
 src/sink/asynchronous.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index d60d060..9883ae2 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -39,7 +39,7 @@ auto builder<sink::asynchronous_t>::wait() & -> builder& {
 }
 
 auto builder<sink::asynchronous_t>::drop() && -> builder&& {
-    return std::move(wait());
+    return std::move(drop());
 }
 
 auto builder<sink::asynchronous_t>::drop() & -> builder& {
@@ -52,7 +52,8 @@ auto builder<sink::asynchronous_t>::wait() && -> builder&& {
 }
 
 auto builder<sink::asynchronous_t>::build() && -> std::unique_ptr<sink_t> {
-    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor);
+    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor,
+        std::move(d->overflow_policy));
 }
 
 auto factory<sink::asynchronous_t>::type() const noexcept -> const char* {
-- 
2.43.0


From 572e30c788bac189e382f12dfebf837fb351d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 13/22] fix: write infinite and undefined numbers as null in
 JSON, which knows neither

---
 src/formatter/json.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 327cc30..062ba5f 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -1,6 +1,7 @@
 #include "blackhole/formatter/json.hpp"
 
 #include <array>
+#include <cmath>
 #include <set>
 #include <unordered_map>
 
@@ -55,6 +56,15 @@ struct visitor_t {
         node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
     }
 
+    // There are neither infinities nor NaN in JSON, `rapidjson` writer stops at them.
+    auto operator()(double value) -> void {
+        if (std::isfinite(value)) {
+            operator()<double>(value);
+        } else {
+            operator()(nullptr);
+        }
+    }
+
     auto operator()(const string_view& value) -> void {
         node.AddMember(rapidjson::StringRef(name.data(), name.size()),
             rapidjson::StringRef(value.data(), value.size()), allocator);
-- 
2.43.0


From 5e68cca552713b31d10cac6e9481887e3447f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:52 +0000
Subject: [PATCH 14/22] fix: write empty string references as empty JSON
 strings, rapidjson takes no null pointers

---
 src/formatter/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 062ba5f..8534b7f 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -67,7 +67,7 @@ struct visitor_t {
 
     auto operator()(const string_view& value) -> void {
         node.AddMember(rapidjson::StringRef(name.data(), name.size()),
-            rapidjson::StringRef(value.data(), value.size()), allocator);
+            rapidjson::StringRef(value.data() ? value.data() : "", value.size()), allocator);
     }
 
     // For temporary buffers, rapidjson will copy the data.
@@ -209,7 +209,7 @@ public:
         const auto it = mapping.find(name.to_string());
 
         if (it == mapping.end()) {
-            return name;
+            return name.data() ? name : string_view("", 0);
         } else {
             return it->second;
         }
-- 
2.43.0


From 2e71136003d9cb559bbfbffc3d1352b58f2361d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 15/22] fix: an attribute at the route of others does not abort
 the JSON formatter

---
 src/formatter/json.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 8534b7f..5803321 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -196,12 +196,17 @@ public:
         const auto it = routing.find(name.to_string());
 
         if (it == routing.end()) {
-            return rest.GetWithDefault(root, rapidjson::kObjectType);
+            return object(rest.GetWithDefault(root, rapidjson::kObjectType));
         } else {
-            return it->second.GetWithDefault(root, rapidjson::kObjectType);
+            return object(it->second.GetWithDefault(root, rapidjson::kObjectType));
         }
     }
 
+    /// An attribute named like a part of the route gives way to the object required there.
+    static auto object(rapidjson::Value& node) -> rapidjson::Value& {
+        return node.IsObject() ? node : node.SetObject();
+    }
+
     template<typename Document>
     auto create(Document& root, const record_t& record) -> builder<Document>;
 
-- 
2.43.0


From e3656260c31b4f0902a6d12a9b7cf82a7562789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:57 +0000
Subject: [PATCH 16/22] fix: configuration strings and names may hold NUL
 characters

---
 src/config/json.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/config/json.hpp b/src/config/json.hpp
index 2d8904c..cf4c0b0 100644
--- a/src/config/json.hpp
+++ b/src/config/json.hpp
@@ -134,7 +134,7 @@ public:
 
     auto to_string() const -> std::string {
         if (is_string()) {
-            return value.GetString();
+            return {value.GetString(), value.GetStringLength()};
         }
 
         type_mismatch("string");
@@ -156,7 +156,8 @@ public:
         }
 
         for (auto it = value.MemberBegin(); it != value.MemberEnd(); ++it) {
-            fn(it->name.GetString(), json_t(it->value, advance(it->name.GetString())));
+            const std::string name(it->name.GetString(), it->name.GetStringLength());
+            fn(name, json_t(it->value, advance(name)));
         }
     }
 
@@ -169,8 +170,13 @@ public:
     }
 
     auto operator[](const std::string& key) const -> option_t {
-        if (value.IsObject() && value.HasMember(key.c_str())) {
-            return make_option<json_t>(value[key.c_str()], advance(key));
+        if (value.IsObject()) {
+            const rapidjson::Value name(rapidjson::StringRef(key.data(), key.size()));
+            const auto it = value.FindMember(name);
+
+            if (it != value.MemberEnd()) {
+                return make_option<json_t>(it->value, advance(key));
+            }
         }
 
         return {};
-- 
2.43.0


From 39be5990a3a842d204bc7cfa2956c9b1038f51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:57 +0000
Subject: [PATCH 17/22] fix: the facade takes patterns that no NUL character
 follows

---
 include/blackhole/extensions/facade.hpp     | 2 +-
 include/blackhole/extensions/facade.inl.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/blackhole/extensions/facade.hpp b/include/blackhole/extensions/facade.hpp
index 52c3ba9..36b866f 100644
--- a/include/blackhole/extensions/facade.hpp
+++ b/include/blackhole/extensions/facade.hpp
@@ -142,7 +142,7 @@ logger_facade<Logger>::select(int severity, const string_view& pattern, const Ar
     typename std::enable_if<!detail::with_attributes<Args...>::value>::type
 {
     fmt::MemoryWriter wr;
-    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern, std::cref(args)...);
 
     attribute_pack pack;
     inner().log(severity, {pattern, std::cref(fn)}, pack);
diff --git a/include/blackhole/extensions/facade.inl.hpp b/include/blackhole/extensions/facade.inl.hpp
index 25aff16..61b306b 100644
--- a/include/blackhole/extensions/facade.inl.hpp
+++ b/include/blackhole/extensions/facade.inl.hpp
@@ -17,8 +17,9 @@ namespace gcc {
 
 /// Workaround for GCC versions up to 4.9, which fails to expand variadic pack inside lambdas.
 template<class... Args>
-inline auto write_all(fmt::MemoryWriter& wr, const char* pattern, const Args&... args) -> string_view {
-    wr.write(pattern, args...);
+inline auto write_all(fmt::MemoryWriter& wr, const string_view& pattern, const Args&... args) -> string_view {
+    // A string view is not necessarily terminated, while the formatter requires it to be.
+    wr.write(pattern.to_string(), args...);
     return {wr.data(), wr.size()};
 }
 
@@ -87,7 +88,7 @@ struct select_t {
         const attribute_list& attributes) -> void
     {
         fmt::MemoryWriter wr;
-        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern, std::cref(args)...);
 
         attribute_pack pack{attributes};
         log.log(severity, {pattern, std::cref(fn)}, pack);
-- 
2.43.0


From a792b7cff9aa185b84860d65fd5de5bf5783f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:45 +0000
Subject: [PATCH 18/22] fix: ports that are out of range are refused instead of
 truncated

---
 src/sink/socket/tcp.cpp | 5 +++++
 src/sink/socket/udp.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/sink/socket/tcp.cpp b/src/sink/socket/tcp.cpp
index 4cd246b..31dd48c 100644
--- a/src/sink/socket/tcp.cpp
+++ b/src/sink/socket/tcp.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include <mutex>
 
 #include <boost/asio/write.hpp>
@@ -154,6 +155,10 @@ auto factory<tcp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<tcp_t>(host, static_cast<std::uint16_t>(port));
 }
 
diff --git a/src/sink/socket/udp.cpp b/src/sink/socket/udp.cpp
index f819b48..97bf278 100644
--- a/src/sink/socket/udp.cpp
+++ b/src/sink/socket/udp.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include <boost/lexical_cast.hpp>
 #include <boost/optional/optional.hpp>
 
@@ -55,6 +57,10 @@ auto factory<udp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<udp_t>(host, static_cast<std::uint16_t>(port));
 }
 
-- 
2.43.0


From 25ba3b762a03c0f46eb7d2285f6cfd97dc0668fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:33 +0000
Subject: [PATCH 19/22] fix: an asynchronous sink configured without factor or
 overflow is refused instead of aborting

---
 src/sink/asynchronous.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index 9883ae2..b5f9bbd 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -71,14 +71,25 @@ auto factory<sink::asynchronous_t>::from(const config::node_t& config) const ->
 
     auto factory = registry.sink(type.get());
 
-    auto factor = config["factor"].to_uint64().get();
-    auto overflow = sink::overflow_policy_factory_t().create(config["overflow"].to_string().get());
+    auto factor = config["factor"].to_uint64();
+
+    if (!factor) {
+        throw std::invalid_argument("field 'factor' is required");
+    }
+
+    auto policy = config["overflow"].to_string();
+
+    if (!policy) {
+        throw std::invalid_argument("field 'overflow' is required");
+    }
+
+    auto overflow = sink::overflow_policy_factory_t().create(policy.get());
 
     // It's safe to unwrap here, because we've already checked that there is "sink" child and it's
     // an object.
     auto sink = factory(*config["sink"].unwrap());
 
-    return std::unique_ptr<sink_t>(new sink::asynchronous_t(std::move(sink), factor, std::move(overflow)));
+    return std::unique_ptr<sink_t>(new sink::asynchronous_t(std::move(sink), factor.get(), std::move(overflow)));
 }
 
 template auto deleter_t::operator()(builder<sink::asynchronous_t>::inner_t* value) -> void;
-- 
2.43.0


From bcd42605aa16954ec4ebd0d6079d56688bffc8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:50 +0000
Subject: [PATCH 20/22] fix: a string formatter configured without a pattern is
 refused instead of aborting

---
 src/formatter/string.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index a7b85a1..83ff82f 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -377,7 +377,13 @@ auto factory<string_t>::type() const noexcept -> const char* {
 }
 
 auto factory<string_t>::from(const config::node_t& config) const -> std::unique_ptr<formatter_t> {
-    auto pattern = config["pattern"].to_string().get();
+    const auto required = config["pattern"].to_string();
+
+    if (!required) {
+        throw std::invalid_argument("field 'pattern' is required");
+    }
+
+    auto pattern = required.get();
 
     if (auto mapping = config["sevmap"]) {
         std::vector<std::string> sevmap;
-- 
2.43.0


From 2772092f3643c915689887a16e07eef254b20d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:01 +0000
Subject: [PATCH 21/22] fix: the text of a timestamp pattern is no longer
 dropped when it exceeds 1023 bytes

---
 src/datetime/generator.linux.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 181d56a..de60e41 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -27,9 +27,23 @@ struct visitor_t : public boost::static_visitor<> {
 
     auto operator()(const literal_t& value) -> void {
         std::size_t ret = std::strftime(buffer, sizeof(buffer), value.value.c_str(), &tm);
+        if (ret == 0 && !value.value.empty()) {
+            return large(value.value + ' ');
+        }
         stream << fmt::StringRef(buffer, ret);
     }
 
+    // Formats a text that does not fit in the buffer. Its last character is the mark by which an
+    // empty text differs from one that does not fit.
+    auto large(const std::string& format) -> void {
+        std::size_t ret = 0;
+        std::vector<char> result(sizeof(buffer));
+        while ((ret = std::strftime(result.data(), result.size(), format.c_str(), &tm)) == 0) {
+            result.resize(2 * result.size());
+        }
+        stream << fmt::StringRef(result.data(), ret - 1);
+    }
+
     auto operator()(epoch_t) -> void {
         // Note, that `mktime` normalizes the given time in place.
         std::tm copy = tm;
-- 
2.43.0


From 06c62f354acaa0d0980950129afe2b98d91c2932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:55 +0000
Subject: [PATCH 22/22] fix: replacing the filter of a root logger no longer
 undoes a concurrent assignment

---
 src/root.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index 7468c7c..690ca40 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -138,13 +138,13 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
 
 auto
 root_logger_t::filter(filter_t fn) -> void {
-    auto inner = sync->load(this->inner);
+    // The filter is replaced in place: storing the inner state back could undo an assignment made by
+    // another thread in between.
+    const auto inner = sync->load(this->inner);
 
     inner->apply([&](inner_t& inner) {
         inner.filter = std::move(fn);
     });
-
-    sync->store(this->inner, std::move(inner));
 }
 
 namespace {
-- 
2.43.0

