From bbb18147cd822e14c92f745f736d2680b63525e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:37 +0000
Subject: [PATCH 01/20] fix: base64pp: reject characters above 'z' in
 is_valid_base64_char

The upper bound of the lower-case range was written as ('z') instead of
(c <= 'z'), so '{', '|', '}', '~' and DEL were accepted and decoded.
---
 src/majordomo/include/majordomo/base64pp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/base64pp.hpp b/src/majordomo/include/majordomo/base64pp.hpp
index 2717fe7..484903a 100644
--- a/src/majordomo/include/majordomo/base64pp.hpp
+++ b/src/majordomo/include/majordomo/base64pp.hpp
@@ -55,7 +55,7 @@ inline bool is_valid_base64_char(char c) {
         return true;
     }
 
-    if ((c >= 'a') && ('z')) {
+    if ((c >= 'a') && (c <= 'z')) {
         return true;
     }
 
-- 
2.43.0


From 5e716bd4e4317878e2da7c292e72b62e8fc9cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:45 +0000
Subject: [PATCH 02/20] fix: URI::decode: check that two hex digits follow '%'
 (out-of-bounds read, uninitialised value)

---
 src/core/include/URI.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 214f559..45d0e20 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -162,12 +162,15 @@ public:
             char c = s[i];
             if (c == '%') {
                 // percent-encode RFC 3986 section 2.2 Reserved Characters i.e. [!#$%&'()*+,/:;=?@[]]
-                if constexpr (check == STRICT) {
-                    if (!std::isxdigit(s[i + 1])) {
-                        throw URISyntaxException(std::format("additional erroneous character '{}' found after '%' at {} of '{}'", s[i + 1], i + 1, s));
+                if (i + 2 >= s.size() || !std::isxdigit(static_cast<unsigned char>(s[i + 1])) || !std::isxdigit(static_cast<unsigned char>(s[i + 2]))) {
+                    if constexpr (check == STRICT) {
+                        throw URISyntaxException(std::format("'%' at {} of '{}' is not followed by two hexadecimal digits", i, s));
+                    } else {
+                        decoded << c; // not an escape sequence -> keep literally
+                        continue;
                     }
                 }
-                int                d;
+                int                d = 0;
                 std::istringstream iss(std::string(s.substr(i + 1, 2))); // TODO find smarter conversion
                 iss >> std::hex >> d;
                 decoded << static_cast<uint8_t>(d);
-- 
2.43.0


From 9a2046bc24b2a25bb291de58942c3d6be3a1ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 03/20] fix: URI::queryParamMap: decode the last value-less
 key; no partial map after a decoding error

---
 src/core/include/URI.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 45d0e20..4ec1c17 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -218,38 +218,40 @@ public:
                 throw URISyntaxException(std::format("URI query contains illegal characters: {}", _query));
             }
         }
-        size_t readPos = 0;
+        std::unordered_map<std::string, std::optional<std::string>> queryMap; // N.B. only stored if decoding did not throw
+        size_t                                                      readPos = 0;
         while (readPos < _query.length()) {
             auto keyEnd = _query.find_first_of("=;&\0", readPos);
             if (keyEnd != std::string_view::npos && keyEnd < _query.length()) {
                 auto key = decode(_query.substr(readPos, keyEnd - readPos));
                 if (_query[keyEnd] != '=') {
-                    _queryMap[key] = std::nullopt;
-                    readPos        = keyEnd + 1; //+1 for separator character
+                    queryMap[key] = std::nullopt;
+                    readPos       = keyEnd + 1; //+1 for separator character
                     continue;
                 }
                 readPos = keyEnd + 1; // skip equal after '='
                 // equal sign present
                 if (readPos >= _query.length()) {
                     // reached parameter string end
-                    _queryMap[key] = std::nullopt;
+                    queryMap[key] = std::nullopt;
                     break;
                 }
                 const auto valueEnd = _query.find_first_of(";&\0", readPos);
                 if (valueEnd != std::string_view::npos && valueEnd < _query.length()) {
-                    _queryMap[key] = std::optional(decode(_query.substr(readPos, valueEnd - readPos)));
-                    readPos        = valueEnd + 1;
+                    queryMap[key] = std::optional(decode(_query.substr(readPos, valueEnd - readPos)));
+                    readPos       = valueEnd + 1;
                     continue;
                 }
                 const auto value = decode(_query.substr(readPos, _query.length() - readPos));
-                _queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
+                queryMap[key]    = value.empty() ? std::nullopt : std::optional(value);
                 break;
             } else {
-                auto key       = std::string(_query.substr(readPos, _query.length() - readPos));
-                _queryMap[key] = std::nullopt;
+                auto key      = decode(_query.substr(readPos, _query.length() - readPos));
+                queryMap[key] = std::nullopt;
                 break;
             }
         }
+        _queryMap = std::move(queryMap);
 
         return _queryMap;
     };
-- 
2.43.0


From 81ed9614e221f3f67d4d71df9e473a463f2cf052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 04/20] fix: URI copy assignment: do not keep authority views
 of the previous content

---
 src/core/include/URI.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 4ec1c17..c6af0cc 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -83,6 +83,7 @@ public:
 
         _parsedAuthority = other._parsedAuthority;
         if (!_parsedAuthority) {
+            _userName = _pwd = _hostName = _port = std::string_view(); // drop views of the previous content
             return *this;
         }
         _userName = adjustedView(other._userName);
-- 
2.43.0


From 7cab531e0492558033e4172a905b4950db32456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 05/20] fix: URI: do not throw std::out_of_range on
 one-character sources

---
 src/core/include/URI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index c6af0cc..8f3bf1a 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -401,7 +401,7 @@ private:
             if ((source.length() > (authOffset + 1) && source[schemeSize] == '/' && source[schemeSize + 1] == '/')
                     || (schemeSize == 0 && source[schemeSize] != '/' && source[schemeSize] != '?' && source[schemeSize] != '#')) {
                 // authority isUnreserved defined starting with '//'
-                authOffset += 2;
+                authOffset = std::min(authOffset + 2, source.length());
                 authEnd    = std::min(source.find_first_of("/?#", authOffset), source.length());
                 _authority = source.substr(authOffset, authEnd - authOffset);
                 if constexpr (check == STRICT) {
-- 
2.43.0


From b5e90ab5f3e4f67c8f6ad94038a148ea05685194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:29 +0000
Subject: [PATCH 06/20] fix: URI: port() terminated on non-numeric,
 out-of-range and IPv6 authorities

---
 src/core/include/URI.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 8f3bf1a..fad5bc1 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -2,6 +2,7 @@
 #define OPENCMW_CPP_URI_HPP
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <iomanip>
 #include <ios>
 #include <optional>
@@ -189,7 +190,7 @@ public:
     inline std::optional<std::string> user() const noexcept { parseAuthority(); return returnOpt(_userName); }
     inline std::optional<std::string> password() const noexcept { parseAuthority(); return returnOpt(_pwd); }
     inline std::optional<std::string> hostName() const noexcept { parseAuthority(); return returnOpt(_hostName); }
-    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return _port.empty() ? std::nullopt : std::optional(std::stoi(std::string{ _port.begin(), _port.end() }));}
+    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return parsePort(_port); }
     inline std::optional<std::string> path() const noexcept { return returnOpt(_path); }
     inline std::optional<std::string> queryParam() const noexcept { return returnOpt(_query); }
     inline std::optional<std::string> fragment() const noexcept { return returnOpt(_fragment); }
@@ -290,7 +291,7 @@ public:
             if (!uri._userName.empty())  { _userName = uri._userName; }
             if (!uri._pwd.empty())       { _pwd = uri._pwd; }
             if (!uri._hostName.empty())  { _host = uri._hostName; }
-            if (!uri._port.empty())      { _port = std::stoi(std::string(uri._port)); }
+            if (!uri._port.empty())      { _port = parsePort(uri._port); }
             if (!uri._path.empty())      { _path = uri._path; }
             if (!uri._query.empty())     { _query = uri._query; }
             if (!uri._fragment.empty())  { _fragment = uri._fragment; }
@@ -356,6 +357,13 @@ private:
         return src.empty() ? std::nullopt : std::optional<std::string>(src);
     };
 
+    // N.B. empty, non-numeric or out-of-range ports are reported as 'no port'
+    static std::optional<uint16_t> parsePort(const std::string_view &port) noexcept {
+        uint16_t value     = 0;
+        const auto [p, ec] = std::from_chars(port.data(), port.data() + port.size(), value);
+        return ec == std::errc() && p == port.data() + port.size() ? std::optional(value) : std::nullopt;
+    }
+
     inline void parseURI() {
         std::string_view source(_str.c_str(), _str.size());
         if constexpr (check == STRICT) {
@@ -465,7 +473,8 @@ private:
         } else {
             userSplit = 0;
         }
-        size_t portSplit = std::min(_authority.find_first_of(':', userSplit), _authority.length());
+        const size_t hostEnd   = _authority.substr(userSplit).starts_with('[') ? std::min(_authority.find(']', userSplit), _authority.length()) : userSplit; // skip IPv6 literal
+        size_t       portSplit = std::min(_authority.find_first_of(':', hostEnd), _authority.length());
         if (portSplit != std::string_view::npos && portSplit < _authority.length()) {
             // port defined
             _hostName = _authority.substr(userSplit, portSplit - userSplit);
-- 
2.43.0


From 03ee1decadd37d9a08950e15a7dd0c5364777253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:13 +0000
Subject: [PATCH 07/20] fix: SpinWait::spinUntil: no timeout if -1 is given
 (and honour a timeout of 1 ms)

---
 src/core/include/SpinWait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/SpinWait.hpp b/src/core/include/SpinWait.hpp
index 1ab2aa6..1e108e8 100644
--- a/src/core/include/SpinWait.hpp
+++ b/src/core/include/SpinWait.hpp
@@ -93,7 +93,7 @@ public:
 
             spinWait.spinOnce();
 
-            if (millisecondsTimeout != 1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
+            if (millisecondsTimeout != -1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
                 return false;
             }
         }
-- 
2.43.0


From ff7f5a82260898b5800c9fafca0bb3d7be8dd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:13 +0000
Subject: [PATCH 08/20] fix: getAffinityMask: report all CPUs of the set
 (sizeof(cpu_set_t) is its size in bytes)

---
 src/core/include/ThreadAffinity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 1f2c1dc..628604e 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -148,7 +148,7 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
 namespace detail {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
 inline std::vector<bool> getAffinityMask(const cpu_set_t &cpuSet) {
-    std::vector<bool> bitMask(std::min(sizeof(cpu_set_t), static_cast<size_t>(std::thread::hardware_concurrency())));
+    std::vector<bool> bitMask(std::min(static_cast<size_t>(CPU_SETSIZE), static_cast<size_t>(std::thread::hardware_concurrency())));
     for (size_t i = 0; i < bitMask.size(); i++) {
         bitMask[i] = CPU_ISSET(i, &cpuSet);
     }
-- 
2.43.0


From 841a915f68b229c014b469a7121e3503efe8777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:13 +0000
Subject: [PATCH 09/20] fix: setThreadName: string_view is not null-terminated

---
 src/core/include/ThreadAffinity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 628604e..81fbbf4 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -139,7 +139,7 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
     if (handle == 0U) {
         throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
-    if (int rc = pthread_setname_np(handle, threadName.data()); rc < 0) {
+    if (int rc = pthread_setname_np(handle, std::string(threadName).c_str()); rc < 0) {
         throw std::system_error(rc, thread_exception(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
-- 
2.43.0


From c85e3c03353f77f6aea599f69ee0f061c2523efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:13 +0000
Subject: [PATCH 10/20] fix: RealtimeMutable::realtimeReplace: keep the
 real-time copy in sync

---
 src/disruptor/include/BasicSetting.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 5acc64c..c28bdd8 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -283,10 +283,10 @@ public:
 
     template<typename... Args>
     void realtimeReplace(Args &&...args) {
-        T    obj(std::forward<Args>(args)...);
+        realtimeCopy = T(std::forward<Args>(args)...); // N.B. also seen by (and not overwritten through) the next realtimeAcquire()
 
-        auto idx  = acquireIndex();
-        data[idx] = std::move(obj);
+        auto idx     = acquireIndex();
+        data[idx]    = realtimeCopy;
         releaseIndex(idx);
     }
 
-- 
2.43.0


From 3f4a6c71006e40e86dff49e3acfc9bac195acfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:13 +0000
Subject: [PATCH 11/20] fix: BasicSetting::ScopedAccess::get: return the value

---
 src/disruptor/include/BasicSetting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index c28bdd8..613dc8b 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -145,13 +145,13 @@ public:
 
         // read-only access
         constexpr          operator const SettingType &() const noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
-        constexpr const T &get() const noexcept { return _currentValue; }
+        constexpr const T &get() const noexcept { return *_currentValue; }
         constexpr const T *operator->() const noexcept { return _currentValue; }
 
         // read-write access
         constexpr operator SettingType &() noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
         template<bool b = true>
-        requires enableMutableAccess T &get() noexcept { return _currentValue; }
+        requires enableMutableAccess T &get() noexcept { return *_currentValue; }
         template<bool b = true>
         requires enableMutableAccess T &operator=(const T &newVal) {
             *_currentValue = newVal;
-- 
2.43.0


From 67f03e43382924051c8ff6fe42189197f81ef609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:27 +0000
Subject: [PATCH 12/20] fix: getMinimumSequence re-read the minimum after it
 may have advanced

The smallest sequence was selected first and its value read a second time:
if it advances in between, the result exceeds the value of another sequence
and a producer may overwrite events that are still being read.
---
 src/disruptor/include/disruptor/Sequence.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index f5eb3fa..b86fa46 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -59,21 +59,10 @@ namespace detail {
  * \returns the minimum sequence found or lon.MaxValue if the array is empty.
  */
 inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequence>> &sequences, std::int64_t minimum = std::numeric_limits<std::int64_t>::max()) noexcept {
-    if (sequences.empty()) {
-        return minimum;
+    for (const auto &sequence : sequences) {
+        minimum = std::min(minimum, sequence->value()); // N.B. each sequence must be read only once since it may advance concurrently
     }
-#if not defined(_LIBCPP_VERSION)
-    return std::min(minimum, std::ranges::min(sequences, std::less{}, [](const auto &sequence) noexcept { return sequence->value(); })->value());
-#else
-    std::vector<int64_t> v;
-    v.reserve(sequences.size());
-    for (auto &sequence : sequences) {
-        v.push_back(sequence->value());
-    }
-    // std::for_each(sequences.begin(), sequences.end(), [v](const auto &sequence) noexcept { v.push_back(8); });
-    auto min = std::min_element(v.begin(), v.end());
-    return (*min < minimum) ? *min : minimum;
-#endif
+    return minimum;
 }
 
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
-- 
2.43.0


From 181e029d86835dcc96c76937c5c6c09394f45efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:29 +0000
Subject: [PATCH 13/20] fix: publication flags of the multi-producer ring
 buffer were a data race

The availability flags are written by producers and polled by consumers in
other threads: publish with release and test with acquire ordering, so that the
event content is visible once its sequence is reported as available.
---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index bffe15f..e515267 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -1,6 +1,9 @@
 #ifndef OPENCMW_CPP_CLAIMSTRATEGY_HPP
 #define OPENCMW_CPP_CLAIMSTRATEGY_HPP
 
+#include <array>
+#include <atomic>
+
 #include <opencmw.hpp>
 
 #include <SpinWait.hpp>
@@ -116,7 +119,7 @@ template<std::size_t SIZE, WaitStrategy WAIT_STRATEGY>
 class MultiThreadedStrategy {
     alignas(kCacheLine) Sequence &_cursor;
     alignas(kCacheLine) WAIT_STRATEGY &_waitStrategy;
-    alignas(kCacheLine) std::array<std::int32_t, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
+    alignas(kCacheLine) std::array<std::atomic<std::int32_t>, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
     alignas(kCacheLine) std::shared_ptr<Sequence> _gatingSequenceCache = std::make_shared<Sequence>();
     static constexpr std::int32_t _indexMask                           = SIZE - 1;
     static constexpr std::int32_t _indexShift                          = ceillog2(SIZE);
@@ -218,7 +221,7 @@ public:
         const auto index = calculateIndex(sequence);
         const auto flag  = calculateAvailabilityFlag(sequence);
 
-        return _availableBuffer[static_cast<std::size_t>(index)] == flag;
+        return _availableBuffer[static_cast<std::size_t>(index)].load(std::memory_order_acquire) == flag;
     }
 
     [[nodiscard]] OPENCMW_FORCEINLINE std::int64_t getHighestPublishedSequence(const std::int64_t lowerBound, const std::int64_t availableSequence) const noexcept {
@@ -233,7 +236,7 @@ public:
 
 private:
     void                              setAvailable(std::int64_t sequence) noexcept { setAvailableBufferValue(calculateIndex(sequence), calculateAvailabilityFlag(sequence)); }
-    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index] = flag; }
+    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index].store(flag, std::memory_order_release); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::int32_t calculateAvailabilityFlag(const std::int64_t sequence) const noexcept { return static_cast<std::int32_t>(static_cast<std::uint64_t>(sequence) >> _indexShift); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::size_t calculateIndex(const std::int64_t sequence) const noexcept { return static_cast<std::size_t>(static_cast<std::int32_t>(sequence) & _indexMask); }
 };
-- 
2.43.0


From 19947abc9680c0defebc209171d8fa7d17127031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:06 +0000
Subject: [PATCH 14/20] fix: MultiArray::indices subtracts the offset of each
 dimension unscaled

The offset is counted in elements of its dimension (see index()), but was
subtracted from the linear index, so that a custom layout with an offset in
a dimension with stride > 1 gave wrong (wrapped) indices.
---
 src/serialiser/include/MultiArray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/MultiArray.hpp b/src/serialiser/include/MultiArray.hpp
index 7984381..da5601d 100644
--- a/src/serialiser/include/MultiArray.hpp
+++ b/src/serialiser/include/MultiArray.hpp
@@ -157,9 +157,9 @@ public:
         std::array<size_t_, n_dims> indices{};
         size_t_                     index_ = index;
         for (size_t_ i = 0; i < n_dims; i++) {
-            index_ -= offsets_[i];
-            indices[i] = index_ / strides_[i];
-            index_ -= indices[i] * strides_[i];
+            const size_t_ position = index_ / strides_[i];
+            indices[i]             = position - offsets_[i];
+            index_ -= position * strides_[i];
         }
         return indices;
     }
-- 
2.43.0


From cfa4b4aea80a0845444c9a5ea0aa8e428f47ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:06 +0000
Subject: [PATCH 15/20] fix: moved-from IoBuffer keeps size and capacity of the
 buffer it lost

Writing to (or reading from) it afterwards accessed a null pointer.
---
 src/serialiser/include/IoBuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 305341b..ec9d68f 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -269,9 +269,9 @@ public:
     [[nodiscard]] IoBuffer(IoBuffer &&other) noexcept
         : _allocator(other._allocator.resource())
         , _buffer(std::exchange(other._buffer, nullptr))
-        , _position(other._position)
-        , _size(other._size)
-        , _capacity(other._capacity) {}
+        , _position(std::exchange(other._position, 0LU))
+        , _size(std::exchange(other._size, 0LU))
+        , _capacity(std::exchange(other._capacity, 0LU)) {}
 
     constexpr ~IoBuffer() {
         freeInternalBuffer();
-- 
2.43.0


From 60b1e358f62a1e4b49a4d96f08e666e4354d655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:06 +0000
Subject: [PATCH 16/20] fix: IoBuffer::swap does not exchange the memory
 resources

A buffer assigned from another one with a different resource was returned
to the wrong resource, e.g. free() of wrapped (stack) memory.
---
 src/serialiser/include/IoBuffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index ec9d68f..121f3a3 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -282,6 +282,10 @@ public:
         std::swap(_size, other._size);
         std::swap(_capacity, other._capacity);
         std::swap(_buffer, other._buffer);
+        // each buffer has to be returned to the resource it came from N.B. polymorphic_allocator is not assignable
+        auto *resource = _allocator.resource();
+        std::construct_at(&_allocator, other._allocator.resource());
+        std::construct_at(&other._allocator, resource);
     }
 
     IoBuffer &operator=(const IoBuffer &other) {
-- 
2.43.0


From 5c3495c9e6e7e7851572e5fc8c854c639507918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:06 +0000
Subject: [PATCH 17/20] fix: IoBuffer::at checks only the first byte of the
 requested value

A value of which only a part lies inside the content was accessed outside
the buffer instead of throwing std::out_of_range.
---
 src/serialiser/include/IoBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 121f3a3..d5e1beb 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -328,7 +328,7 @@ public:
     template<typename R, bool checkRange = true>
     OPENCMW_FORCEINLINE constexpr R &at(const size_t index) noexcept(!checkRange) {
         if constexpr (checkRange) {
-            if (index >= _size) {
+            if (index >= _size || _size - index < sizeof(R)) {
                 throw std::out_of_range(std::format("requested index {} is out-of-range [0,{}]", index, _size));
             }
         }
-- 
2.43.0


From 40ce241ac6bd4da956718d842ca784b5c6b6e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:04 +0000
Subject: [PATCH 18/20] fix: MultiArray::operator+ writes outside its result
 for custom layouts

The result was sized by the product of the dimensions, but filled with all
elements of the left operand, of which a custom layout has more.
---
 src/serialiser/include/MultiArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/MultiArray.hpp b/src/serialiser/include/MultiArray.hpp
index da5601d..80b82ca 100644
--- a/src/serialiser/include/MultiArray.hpp
+++ b/src/serialiser/include/MultiArray.hpp
@@ -242,7 +242,7 @@ public:
 
     MultiArray<value_type, n_dims> operator+(const MultiArray<value_type, n_dims> &operand) const {
         // todo: verify dimension match. Allow broadcasting (adding a column vector to each row or similar)?
-        MultiArray result = MultiArray<value_type, n_dims>(this->dims_);
+        MultiArray result = *this; // same layout, i.e. strides, offsets and number of elements
         for (size_t_ i = 0; i < n_element_; ++i) { // todo: use iterator to only change valid fields
             result[i] = operator[](i) + operand[i];
         }
@@ -250,7 +250,7 @@ public:
     }
     template<AnyNumber R>
     MultiArray operator+(const R &operand) const {
-        MultiArray result = MultiArray<value_type, n_dims>(this->dims_);
+        MultiArray result = *this; // same layout, i.e. strides, offsets and number of elements
         for (size_t_ i = 0; i < n_element_; ++i) { // todo: use iterator to only change valid fields
             result[i] = elements_[i] + operand;
         }
-- 
2.43.0


From 0ccca459afada678cbfb1b557c9813f92a27d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:48 +0000
Subject: [PATCH 19/20] fix: release the single-character frame content with
 delete[]

MessageFrame(char) allocates with new char[1]; its free function used the
scalar delete, which is undefined behaviour.
---
 src/zmq/include/zmq/ZmqUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index d50571b..0f4e8e2 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -236,7 +236,7 @@ public:
         zmq_msg_init_data(
                 &_message, copy, 1,
                 [](void * /*unused*/, void *bufOwned) {
-                    delete static_cast<char *>(bufOwned);
+                    delete[] static_cast<char *>(bufOwned);
                 },
                 copy);
     }
-- 
2.43.0


From d8142b1a488ad8b3c2ccef784db415e1456cb7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:14 +0000
Subject: [PATCH 20/20] fix: refuse a message with a malformed topic instead of
 throwing

The topic frame is parsed as a strict URI; for a text that is not one the
exception escaped from receive() through the event loops of broker, worker
and client, although all other malformed messages are refused.
---
 src/zmq/include/zmq/ZmqUtils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index 0f4e8e2..8fa6220 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -442,7 +442,11 @@ template<mdp::MessageFormat Format>
     msg.command         = static_cast<mdp::Command>(commandStr[0]);
     msg.serviceName     = std::string(zmsg.frame(ZmqMessage<Format>::Frame::ServiceName).data());
     msg.clientRequestID = IoBuffer(clientRequestId.data(), clientRequestId.size());
-    msg.topic           = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    try {
+        msg.topic = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    } catch (const URISyntaxException &) {
+        return {}; // malformed topic
+    }
     msg.data            = IoBuffer(data.data(), data.size());
     msg.error           = std::string(zmsg.frame(ZmqMessage<Format>::Frame::Error).data());
     msg.rbac            = IoBuffer(rbac.data(), rbac.size());
-- 
2.43.0

