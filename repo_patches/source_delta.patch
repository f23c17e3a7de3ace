From 17502332f5f7470455e38267d18116d9e2e5cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:38 +0000
Subject: [PATCH 01/80] fix: base64pp accepts only 'a'..'z' as lower-case
 base64 letters

The second operand of the range check was the constant 'z', so that every
character from 'a' up to 0x7f (e.g. '{', '~') passed validation and was
decoded through the table as if it were data.
---
 src/majordomo/include/majordomo/base64pp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/base64pp.hpp b/src/majordomo/include/majordomo/base64pp.hpp
index 2717fe7..484903a 100644
--- a/src/majordomo/include/majordomo/base64pp.hpp
+++ b/src/majordomo/include/majordomo/base64pp.hpp
@@ -55,7 +55,7 @@ inline bool is_valid_base64_char(char c) {
         return true;
     }
 
-    if ((c >= 'a') && ('z')) {
+    if ((c >= 'a') && (c <= 'z')) {
         return true;
     }
 
-- 
2.43.0


From c258e582af60aa9c150ccbf648e5ef00efb44650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 02/80] fix: URI::decode handles a '%' that is not followed by
 two hex digits

A '%' at the end of the text read past the string_view, and a '%' with fewer
than two digits was decoded from an uninitialised (or partial) value. STRICT
now throws URISyntaxException, RELAXED keeps the '%' literally.
---
 src/core/include/URI.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 214f559..3992f73 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -162,12 +162,14 @@ public:
             char c = s[i];
             if (c == '%') {
                 // percent-encode RFC 3986 section 2.2 Reserved Characters i.e. [!#$%&'()*+,/:;=?@[]]
-                if constexpr (check == STRICT) {
-                    if (!std::isxdigit(s[i + 1])) {
-                        throw URISyntaxException(std::format("additional erroneous character '{}' found after '%' at {} of '{}'", s[i + 1], i + 1, s));
+                if (i + 2 >= s.size() || !std::isxdigit(static_cast<unsigned char>(s[i + 1])) || !std::isxdigit(static_cast<unsigned char>(s[i + 2]))) {
+                    if constexpr (check == STRICT) {
+                        throw URISyntaxException(std::format("'%' at {} of '{}' is not followed by two hexadecimal digits", i, s));
                     }
+                    decoded << c;
+                    continue;
                 }
-                int                d;
+                int                d = 0;
                 std::istringstream iss(std::string(s.substr(i + 1, 2))); // TODO find smarter conversion
                 iss >> std::hex >> d;
                 decoded << static_cast<uint8_t>(d);
-- 
2.43.0


From 703b8dd39aab5a5d6b5a93220fb0cb4102d18f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 03/80] fix: URI::queryParamMap percent-decodes a trailing key
 without value

Every other key and value of the query was decoded already.
---
 src/core/include/URI.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 3992f73..808740a 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -244,7 +244,7 @@ public:
                 _queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
                 break;
             } else {
-                auto key       = std::string(_query.substr(readPos, _query.length() - readPos));
+                auto key       = decode(_query.substr(readPos, _query.length() - readPos));
                 _queryMap[key] = std::nullopt;
                 break;
             }
-- 
2.43.0


From e9bf11e995efb50c5ab4c1eb1c2554df702c1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 04/80] fix: URI copy-assignment drops the authority views of
 the previous value

The views were left pointing into the replaced string; user(), password() and
port() returned them when the new authority has no such part.
---
 src/core/include/URI.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 808740a..f1ef353 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -83,6 +83,7 @@ public:
 
         _parsedAuthority = other._parsedAuthority;
         if (!_parsedAuthority) {
+            _userName = _pwd = _hostName = _port = {}; // would otherwise refer to the previous string
             return *this;
         }
         _userName = adjustedView(other._userName);
-- 
2.43.0


From dc9c69b45dcf433077660bbb85b6297659c15a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 05/80] fix: URI::port() reports no port for one that is no
 16-bit number

std::stoi threw out of the noexcept accessor (std::terminate) for a
non-numeric port and numbers above 65535 were silently truncated.
---
 src/core/include/URI.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index f1ef353..091959d 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -2,6 +2,7 @@
 #define OPENCMW_CPP_URI_HPP
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <iomanip>
 #include <ios>
 #include <optional>
@@ -188,7 +189,7 @@ public:
     inline std::optional<std::string> user() const noexcept { parseAuthority(); return returnOpt(_userName); }
     inline std::optional<std::string> password() const noexcept { parseAuthority(); return returnOpt(_pwd); }
     inline std::optional<std::string> hostName() const noexcept { parseAuthority(); return returnOpt(_hostName); }
-    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return _port.empty() ? std::nullopt : std::optional(std::stoi(std::string{ _port.begin(), _port.end() }));}
+    inline std::optional<uint16_t> port() const noexcept { parseAuthority(); return toPort(_port); }
     inline std::optional<std::string> path() const noexcept { return returnOpt(_path); }
     inline std::optional<std::string> queryParam() const noexcept { return returnOpt(_query); }
     inline std::optional<std::string> fragment() const noexcept { return returnOpt(_fragment); }
@@ -287,7 +288,7 @@ public:
             if (!uri._userName.empty())  { _userName = uri._userName; }
             if (!uri._pwd.empty())       { _pwd = uri._pwd; }
             if (!uri._hostName.empty())  { _host = uri._hostName; }
-            if (!uri._port.empty())      { _port = std::stoi(std::string(uri._port)); }
+            if (!uri._port.empty())      { _port = toPort(uri._port); }
             if (!uri._path.empty())      { _path = uri._path; }
             if (!uri._query.empty())     { _query = uri._query; }
             if (!uri._fragment.empty())  { _fragment = uri._fragment; }
@@ -353,6 +354,12 @@ private:
         return src.empty() ? std::nullopt : std::optional<std::string>(src);
     };
 
+    static std::optional<uint16_t> toPort(std::string_view src) noexcept {
+        uint16_t   port      = 0;
+        const auto [end, ec] = std::from_chars(src.data(), src.data() + src.size(), port);
+        return ec == std::errc{} && end == src.data() + src.size() ? std::optional(port) : std::nullopt;
+    }
+
     inline void parseURI() {
         std::string_view source(_str.c_str(), _str.size());
         if constexpr (check == STRICT) {
-- 
2.43.0


From ad9bde09ac4302bd794a4b58db6c9525cdf1f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 06/80] fix: URI does not split an IPv6 literal host at its
 first colon

http://[::1]:12 was taken as host '[' and port ':1]:12'.
---
 src/core/include/URI.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 091959d..ce18156 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -469,7 +469,9 @@ private:
         } else {
             userSplit = 0;
         }
-        size_t portSplit = std::min(_authority.find_first_of(':', userSplit), _authority.length());
+        // the colons of an IPv6 literal '[...]' are part of the host
+        const size_t hostEnd   = userSplit < _authority.length() && _authority[userSplit] == '[' ? std::min(_authority.find_first_of(']', userSplit), _authority.length()) : userSplit;
+        size_t       portSplit = std::min(_authority.find_first_of(':', hostEnd), _authority.length());
         if (portSplit != std::string_view::npos && portSplit < _authority.length()) {
             // port defined
             _hostName = _authority.substr(userSplit, portSplit - userSplit);
-- 
2.43.0


From 5917e135d9afce3bef741511903cdae66c15accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 07/80] fix: UriFactory::toString no longer changes the factory

Each call appended the query parameters again and froze the authority.
---
 src/core/include/URI.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index ce18156..636d6fd 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -260,14 +260,14 @@ public:
     bool operator==(const URI &other) const noexcept { return _str == other.str(); }
 
     class UriFactory {
-        mutable std::string     _authority;
+        std::string             _authority;
         std::string             _scheme;
         std::string             _userName;
         std::string             _pwd;
         std::string             _host;
         std::optional<uint16_t> _port;
         std::string             _path;
-        mutable std::string     _query;
+        std::string             _query;
         std::string             _fragment;
         // local map to overwrite _query parameter if set
         std::unordered_map<std::string, std::optional<std::string>> _queryMap;
@@ -308,34 +308,35 @@ public:
         // clang-format on
 
         std::string toString() const {
-            if (_authority.empty()) {
+            std::string authority = _authority;
+            std::string query     = _query;
+            if (authority.empty()) {
                 const std::string optColon1 = (_pwd.empty() || _userName.empty()) ? "" : ":";
                 const std::string pwdPart   = _userName.empty() ? "" : _pwd;
                 const std::string atSign    = _userName.empty() ? "" : "@"; // after “user[:pwd]”
                 const std::string optColon2 = _port ? ":" : "";             // before port
                 const std::string portPart  = _port ? std::to_string(*_port) : "";
 
-                _authority                  = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
+                authority                   = std::format("{}{}{}{}{}{}{}", _userName, optColon1, pwdPart, atSign, _host, optColon2, portPart);
             }
 
-            // TODO: Calling toString multiple times appends parameters over and over again
             for (const auto &[key, value] : _queryMap) {
                 // RFC-3986: “key[=value]” pairs joined by ‘&’
-                const std::string ampersand  = _query.empty() ? "" : "&";
+                const std::string ampersand  = query.empty() ? "" : "&";
                 const std::string encodedKey = encode(key);
                 const std::string equalSign  = value ? "=" : "";
                 const std::string encodedVal = value ? encode(value.value()) : "";
 
-                _query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
+                query += std::format("{}{}{}{}", ampersand, encodedKey, equalSign, encodedVal);
             }
 
             const std::string colon     = _scheme.empty() ? "" : ":";
-            const std::string authSlash = (_authority.empty() || _authority.starts_with("//")) ? "" : "//";
-            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || _authority.empty()) ? "" : "/";
-            const std::string qMark     = (_query.empty() || _query.starts_with('?')) ? "" : "?";
+            const std::string authSlash = (authority.empty() || authority.starts_with("//")) ? "" : "//";
+            const std::string pathSlash = (_path.empty() || _path.starts_with('/') || authority.empty()) ? "" : "/";
+            const std::string qMark     = (query.empty() || query.starts_with('?')) ? "" : "?";
             const std::string hashMark  = (_fragment.empty() || _fragment.starts_with('#')) ? "" : "#";
 
-            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, _authority, pathSlash, _path, qMark, _query, hashMark, encode(_fragment));
+            return std::format("{}{}{}{}{}{}{}{}{}{}", _scheme, colon, authSlash, authority, pathSlash, _path, qMark, query, hashMark, encode(_fragment));
         }
 
         URI build() {
-- 
2.43.0


From d9caf76102e6f8816834f57fcd7b3dfec720a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:03 +0000
Subject: [PATCH 08/80] fix: URI move-assignment leaves no views into another
 object's string in the moved-from URI

---
 src/core/include/URI.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index 636d6fd..eaf5fd6 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -131,6 +131,13 @@ public:
             adjustView(_port);
         }
 
+        // leave the moved-from object empty: the views swapped into it refer to this object's previous string
+        other._str.clear();
+        other._scheme = other._authority = other._path = other._query = other._fragment = {};
+        other._userName = other._pwd = other._hostName = other._port = {};
+        other._queryMap.clear();
+        other._parsedAuthority = false;
+
         return *this;
     }
 
-- 
2.43.0


From 01bd8c9ecc71be67172a36e12c1efd42bf4b6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 09/80] fix: URI::queryParamMap keeps no partial map when a
 parameter cannot be decoded

---
 src/core/include/URI.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/core/include/URI.hpp b/src/core/include/URI.hpp
index eaf5fd6..4e7fefd 100644
--- a/src/core/include/URI.hpp
+++ b/src/core/include/URI.hpp
@@ -226,39 +226,41 @@ public:
                 throw URISyntaxException(std::format("URI query contains illegal characters: {}", _query));
             }
         }
+        std::unordered_map<std::string, std::optional<std::string>> queryMap; // kept only if every parameter could be decoded
         size_t readPos = 0;
         while (readPos < _query.length()) {
             auto keyEnd = _query.find_first_of("=;&\0", readPos);
             if (keyEnd != std::string_view::npos && keyEnd < _query.length()) {
                 auto key = decode(_query.substr(readPos, keyEnd - readPos));
                 if (_query[keyEnd] != '=') {
-                    _queryMap[key] = std::nullopt;
-                    readPos        = keyEnd + 1; //+1 for separator character
+                    queryMap[key] = std::nullopt;
+                    readPos       = keyEnd + 1; //+1 for separator character
                     continue;
                 }
                 readPos = keyEnd + 1; // skip equal after '='
                 // equal sign present
                 if (readPos >= _query.length()) {
                     // reached parameter string end
-                    _queryMap[key] = std::nullopt;
+                    queryMap[key] = std::nullopt;
                     break;
                 }
                 const auto valueEnd = _query.find_first_of(";&\0", readPos);
                 if (valueEnd != std::string_view::npos && valueEnd < _query.length()) {
-                    _queryMap[key] = std::optional(decode(_query.substr(readPos, valueEnd - readPos)));
-                    readPos        = valueEnd + 1;
+                    queryMap[key] = std::optional(decode(_query.substr(readPos, valueEnd - readPos)));
+                    readPos       = valueEnd + 1;
                     continue;
                 }
                 const auto value = decode(_query.substr(readPos, _query.length() - readPos));
-                _queryMap[key]   = value.empty() ? std::nullopt : std::optional(value);
+                queryMap[key]    = value.empty() ? std::nullopt : std::optional(value);
                 break;
             } else {
-                auto key       = decode(_query.substr(readPos, _query.length() - readPos));
-                _queryMap[key] = std::nullopt;
+                auto key      = decode(_query.substr(readPos, _query.length() - readPos));
+                queryMap[key] = std::nullopt;
                 break;
             }
         }
 
+        _queryMap = std::move(queryMap);
         return _queryMap;
     };
 
-- 
2.43.0


From 1f30d7c16c36f40ef626c2b4d08748f3ae4cdcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:48 +0000
Subject: [PATCH 10/80] fix: SpinWait::spinUntil gave up early without a
 timeout and never with one of 1 ms

---
 src/core/include/SpinWait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/SpinWait.hpp b/src/core/include/SpinWait.hpp
index 1ab2aa6..1e108e8 100644
--- a/src/core/include/SpinWait.hpp
+++ b/src/core/include/SpinWait.hpp
@@ -93,7 +93,7 @@ public:
 
             spinWait.spinOnce();
 
-            if (millisecondsTimeout != 1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
+            if (millisecondsTimeout != -1 && spinWait.nextSpinWillYield() && millisecondsTimeout <= (getTickCount() - num)) {
                 return false;
             }
         }
-- 
2.43.0


From 0d87e981adf5c3e0b0cd3be3b74b606d73c94308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:48 +0000
Subject: [PATCH 11/80] fix: thread errors referred to a destroyed error
 category

---
 src/core/include/ThreadAffinity.hpp | 51 ++++++++++++++++-------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 1f2c1dc..63fa8bd 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -58,6 +58,11 @@ public:
     };
 };
 
+inline const thread_exception &threadErrorCategory() noexcept { // error codes refer to their category, which must outlive them
+    static const thread_exception category;
+    return category;
+}
+
 template<class type>
 #ifdef __EMSCRIPTEN__
 concept thread_type = std::is_same_v<type, std::thread>;
@@ -86,7 +91,7 @@ inline std::string getThreadName(const pthread_t &handle) {
     }
     char threadName[THREAD_MAX_NAME_LENGTH];
     if (int rc = pthread_getname_np(handle, threadName, THREAD_MAX_NAME_LENGTH); rc != 0) {
-        throw std::system_error(rc, thread_exception(), "getThreadName(thread_type)");
+        throw std::system_error(rc, threadErrorCategory(), "getThreadName(thread_type)");
     }
     return std::string{ threadName, std::min(strlen(threadName), THREAD_MAX_NAME_LENGTH) };
 }
@@ -114,7 +119,7 @@ inline std::string getThreadName(thread_type auto &...thread) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), "getThreadName(thread_type)");
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), "getThreadName(thread_type)");
     }
     return detail::getThreadName(handle);
 #else
@@ -126,7 +131,7 @@ inline void setProcessName(const std::string_view &processName, int pid = detail
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     std::ofstream out(std::format("/proc/{}/comm", pid), std::ios::out);
     if (!out.is_open()) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setProcessName({},{})", processName, pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("setProcessName({},{})", processName, pid));
     }
     out << std::string{ processName.cbegin(), std::min(15LU, processName.size()) };
     out.close();
@@ -137,10 +142,10 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
     if (int rc = pthread_setname_np(handle, threadName.data()); rc < 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
+        throw std::system_error(rc, threadErrorCategory(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
 }
@@ -177,11 +182,11 @@ inline constexpr cpu_set_t getAffinityMask(const T &threadMap) {
 inline std::vector<bool> getThreadAffinity(thread_type auto &...thread) {
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getThreadAffinity(thread_type)"));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("getThreadAffinity(thread_type)"));
     }
     cpu_set_t cpuSet;
     if (int rc = pthread_getaffinity_np(handle, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getThreadAffinity({})", detail::getThreadName(handle)));
+        throw std::system_error(rc, threadErrorCategory(), std::format("getThreadAffinity({})", detail::getThreadName(handle)));
     }
     return detail::getAffinityMask(cpuSet);
 }
@@ -197,11 +202,11 @@ template<class T>
 inline constexpr void setThreadAffinity(const T &threadMap, thread_type auto &...thread) {
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, thread_type)", threadMap.size(), opencmw::join(threadMap, ", ")));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, thread_type)", threadMap.size(), opencmw::join(threadMap, ", ")));
     }
     cpu_set_t cpuSet = detail::getAffinityMask(threadMap);
     if (int rc = pthread_setaffinity_np(handle, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), detail::getThreadName(handle)));
+        throw std::system_error(rc, threadErrorCategory(), std::format("setThreadAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), detail::getThreadName(handle)));
     }
 }
 #else
@@ -213,11 +218,11 @@ inline constexpr bool setThreadAffinity(const T &threadMap, thread_type auto &..
 inline std::vector<bool> getProcessAffinity(const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getProcessAffinity({}) -- invalid pid", pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("getProcessAffinity({}) -- invalid pid", pid));
     }
     cpu_set_t cpuSet;
     if (int rc = sched_getaffinity(pid, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getProcessAffinity(std::bitset<{{}}> = {{}}, thread_type)")); // todo: fix format string
+        throw std::system_error(rc, threadErrorCategory(), std::format("getProcessAffinity(std::bitset<{{}}> = {{}}, thread_type)")); // todo: fix format string
     }
     return detail::getAffinityMask(cpuSet);
 #else
@@ -230,11 +235,11 @@ template<class T>
 inline constexpr bool setProcessAffinity(const T &threadMap, const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
     }
     cpu_set_t cpuSet = detail::getAffinityMask(threadMap);
     if (int rc = sched_setaffinity(pid, sizeof(cpu_set_t), &cpuSet); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
+        throw std::system_error(rc, threadErrorCategory(), std::format("setProcessAffinity(std::vector<bool, {}> = {{{}}}, {})", threadMap.size(), opencmw::join(threadMap, ", "), pid));
     }
 
     return true;
@@ -271,12 +276,12 @@ inline Policy getEnumPolicy(const int policy) {
 inline struct SchedulingParameter getProcessSchedulingParameter(const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getProcessSchedulingParameter({}) -- invalid pid", pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("getProcessSchedulingParameter({}) -- invalid pid", pid));
     }
     struct sched_param param;
     const int          policy = sched_getscheduler(pid);
     if (int rc = sched_getparam(pid, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getProcessSchedulingParameter({}) - sched_getparam error", pid));
+        throw std::system_error(rc, threadErrorCategory(), std::format("getProcessSchedulingParameter({}) - sched_getparam error", pid));
     }
     return SchedulingParameter{ .policy = detail::getEnumPolicy(policy), .priority = param.sched_priority };
 #else
@@ -287,18 +292,18 @@ inline struct SchedulingParameter getProcessSchedulingParameter(const int pid =
 inline void setProcessSchedulingParameter(Policy scheduler, int priority, const int pid = detail::getPid()) {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     if (pid <= 0) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setProcessSchedulingParameter({}, {}, {}) -- invalid pid", static_cast<int>(scheduler), priority, pid));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("setProcessSchedulingParameter({}, {}, {}) -- invalid pid", static_cast<int>(scheduler), priority, pid));
     }
     const int minPriority = sched_get_priority_min(scheduler);
     const int maxPriority = sched_get_priority_max(scheduler);
     if (priority < minPriority || priority > maxPriority) {
-        throw std::system_error(THREAD_VALUE_RANGE, thread_exception(), std::format("setProcessSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, pid, minPriority, maxPriority));
+        throw std::system_error(THREAD_VALUE_RANGE, threadErrorCategory(), std::format("setProcessSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, pid, minPriority, maxPriority));
     }
     struct sched_param param {
         .sched_priority = priority
     };
     if (int rc = sched_setscheduler(pid, scheduler, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setProcessSchedulingParameter({}, {}, {}) - sched_setscheduler return code: {}", static_cast<int>(scheduler), priority, pid, rc));
+        throw std::system_error(rc, threadErrorCategory(), std::format("setProcessSchedulingParameter({}, {}, {}) - sched_setscheduler return code: {}", static_cast<int>(scheduler), priority, pid, rc));
     }
 #endif
 }
@@ -307,12 +312,12 @@ inline struct SchedulingParameter getThreadSchedulingParameter(thread_type auto
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("getThreadSchedulingParameter(thread_type) -- invalid thread"));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("getThreadSchedulingParameter(thread_type) -- invalid thread"));
     }
     struct sched_param param;
     int                policy;
     if (int rc = pthread_getschedparam(handle, &policy, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("getThreadSchedulingParameter({}) - sched_getparam error", detail::getThreadName(handle)));
+        throw std::system_error(rc, threadErrorCategory(), std::format("getThreadSchedulingParameter({}) - sched_getparam error", detail::getThreadName(handle)));
     }
     return { .policy = detail::getEnumPolicy(policy), .priority = param.sched_priority };
 #else
@@ -324,18 +329,18 @@ inline void setThreadSchedulingParameter(Policy scheduler, int priority, thread_
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
     const pthread_t handle = detail::getPosixHandler(thread...);
     if (handle == 0U) {
-        throw std::system_error(THREAD_UNINITIALISED, thread_exception(), std::format("setThreadSchedulingParameter({}, {}, thread_type) -- invalid thread", static_cast<int>(scheduler), priority));
+        throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("setThreadSchedulingParameter({}, {}, thread_type) -- invalid thread", static_cast<int>(scheduler), priority));
     }
     const int minPriority = sched_get_priority_min(scheduler);
     const int maxPriority = sched_get_priority_max(scheduler);
     if (priority < minPriority || priority > maxPriority) {
-        throw std::system_error(THREAD_VALUE_RANGE, thread_exception(), std::format("setThreadSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, detail::getThreadName(handle), minPriority, maxPriority));
+        throw std::system_error(THREAD_VALUE_RANGE, threadErrorCategory(), std::format("setThreadSchedulingParameter({}, {}, {}) -- requested priority out-of-range [{}, {}]", static_cast<int>(scheduler), priority, detail::getThreadName(handle), minPriority, maxPriority));
     }
     struct sched_param param {
         .sched_priority = priority
     };
     if (int rc = pthread_setschedparam(handle, scheduler, &param); rc != 0) {
-        throw std::system_error(rc, thread_exception(), std::format("setThreadSchedulingParameter({}, {}, {}) - pthread_setschedparam return code: {}", static_cast<int>(scheduler), priority, detail::getThreadName(handle), rc));
+        throw std::system_error(rc, threadErrorCategory(), std::format("setThreadSchedulingParameter({}, {}, {}) - pthread_setschedparam return code: {}", static_cast<int>(scheduler), priority, detail::getThreadName(handle), rc));
     }
 #endif
 }
-- 
2.43.0


From c0c3013c22f1ce4233de6746050e81f64fb42335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:48 +0000
Subject: [PATCH 12/80] fix: setThreadName read past the end of a string_view
 that is not null-terminated

---
 src/core/include/ThreadAffinity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 63fa8bd..179ad0d 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -144,7 +144,7 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
     if (handle == 0U) {
         throw std::system_error(THREAD_UNINITIALISED, threadErrorCategory(), std::format("setThreadName({}, thread_type)", threadName, detail::getThreadName(handle)));
     }
-    if (int rc = pthread_setname_np(handle, threadName.data()); rc < 0) {
+    if (int rc = pthread_setname_np(handle, std::string(threadName).c_str()); rc < 0) {
         throw std::system_error(rc, threadErrorCategory(), std::format("setThreadName({},{}) - error code '{}'", threadName, detail::getThreadName(handle), rc));
     }
 #endif
-- 
2.43.0


From 36ccd541950fb63cdee8676b181341cd43d17ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:48 +0000
Subject: [PATCH 13/80] fix: affinity masks omitted CPUs from the 128th on

---
 src/core/include/ThreadAffinity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/ThreadAffinity.hpp b/src/core/include/ThreadAffinity.hpp
index 179ad0d..776e2d1 100644
--- a/src/core/include/ThreadAffinity.hpp
+++ b/src/core/include/ThreadAffinity.hpp
@@ -153,7 +153,7 @@ inline void setThreadName(const std::string_view &threadName, thread_type auto &
 namespace detail {
 #if defined(_POSIX_VERSION) && not defined(__EMSCRIPTEN__)
 inline std::vector<bool> getAffinityMask(const cpu_set_t &cpuSet) {
-    std::vector<bool> bitMask(std::min(sizeof(cpu_set_t), static_cast<size_t>(std::thread::hardware_concurrency())));
+    std::vector<bool> bitMask(std::min(static_cast<size_t>(CPU_SETSIZE), static_cast<size_t>(std::thread::hardware_concurrency())));
     for (size_t i = 0; i < bitMask.size(); i++) {
         bitMask[i] = CPU_ISSET(i, &cpuSet);
     }
-- 
2.43.0


From 40f62df4620aae884f0a44112b502b3b2d14689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:21 +0000
Subject: [PATCH 14/80] fix: TimingCtx: detect a changed selector by its text,
 not by a 32 bit hash, and keep reporting an invalid one

---
 src/core/include/TimingCtx.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 425fe40..a1ec80f 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -7,6 +7,7 @@
 #include <exception>
 #include <functional>
 #include <opencmw.hpp>
+#include <optional>
 #include <ranges>
 #include <string_view>
 
@@ -33,8 +34,7 @@ class TimingCtx {
     constexpr static auto WILDCARD        = std::string_view("ALL");
     constexpr static auto WILDCARD_VALUE  = -1;
     constexpr static auto SELECTOR_PREFIX = std::string_view("FAIR.SELECTOR.");
-    constexpr static auto EMPTY_HASH      = detail::const_hash(DEFAULT);
-    mutable std::size_t   _hash           = EMPTY_HASH; // to distinguish already parsed selectors
+    mutable std::optional<std::string> _parsedSelector = DEFAULT; // text the fields below have been parsed from, empty if it was invalid
     mutable int32_t       _cid            = WILDCARD_VALUE;
     mutable int32_t       _sid            = WILDCARD_VALUE;
     mutable int32_t       _pid            = WILDCARD_VALUE;
@@ -109,18 +109,18 @@ public:
     }
 
     void parse() const {
-        // lazy revaluation in case selector changed -- not mathematically perfect but should be sufficient given the limited/constraint selector syntax
-        const size_t selectorHash = detail::const_hash(selector.data());
-        if (_hash == selectorHash) {
+        // lazy revaluation in case selector changed
+        if (_parsedSelector == selector.value()) {
             return;
         }
         _cid                                = WILDCARD_VALUE;
         _sid                                = WILDCARD_VALUE;
         _pid                                = WILDCARD_VALUE;
         _gid                                = WILDCARD_VALUE;
-        _hash                               = selectorHash;
+        _parsedSelector.reset();
         const std::string upperCaseSelector = toUpper(selector);
         if (upperCaseSelector.empty() || upperCaseSelector == WILDCARD) {
+            _parsedSelector = selector.value();
             return;
         }
 
@@ -130,6 +130,7 @@ public:
         auto upperCaseSelectorView = std::string_view{ upperCaseSelector.data() + SELECTOR_PREFIX.length(), upperCaseSelector.size() - SELECTOR_PREFIX.length() };
 
         if (upperCaseSelectorView == WILDCARD) {
+            _parsedSelector = selector.value();
             return;
         }
 
@@ -138,7 +139,6 @@ public:
             const auto tag      = posColon != std::string_view::npos ? upperCaseSelectorView.substr(0, posColon) : upperCaseSelectorView;
 
             if (tag.length() < 3) {
-                _hash = 0;
                 throw std::invalid_argument(std::format("Invalid tag '{}'", tag));
             }
 
@@ -146,7 +146,6 @@ public:
 
             // there must be one char left of the '=', at least one after, and there must be only one '='
             if (posEqual != 1 || tag.find('=', posEqual + 1) != std::string_view::npos) {
-                _hash = 0;
                 throw std::invalid_argument(std::format("Tag has invalid format: '{}'", tag));
             }
 
@@ -158,7 +157,6 @@ public:
             if (WILDCARD != valueString) {
                 int32_t intValue = 0;
                 if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec == std::errc::invalid_argument) {
-                    _hash = 0;
                     throw std::invalid_argument(std::format("Value: '{}' in '{}' is not a valid integer", valueString, tag));
                 }
 
@@ -179,12 +177,12 @@ public:
                 _gid = value;
                 break;
             default:
-                _hash = 0;
                 throw std::invalid_argument(std::format("Unknown key '{}' in '{}'.", key[0], tag));
             }
 
             if (posColon == std::string_view::npos) {
                 // if there's no other segment, we're done
+                _parsedSelector = selector.value();
                 return;
             }
 
-- 
2.43.0


From 7dbf64e63091fcbbd7e518fd7e3dc65c36bc0cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:21 +0000
Subject: [PATCH 15/80] fix: TimingCtx: re-evaluate the other operand's
 selector, too, when matching and comparing

---
 src/core/include/TimingCtx.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index a1ec80f..38b8318 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -57,7 +57,7 @@ public:
     [[nodiscard]] int32_t gid() const { parse(); return _gid; }
 
     // these are not commutative, and must not be confused with operator==
-    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
+    [[nodiscard]] bool matches(const TimingCtx &other) const { parse(); other.parse(); return wildcardMatch(_cid, other._cid) && wildcardMatch(_sid, other._sid) && wildcardMatch(_pid, other._pid) && wildcardMatch(_gid, other._gid); }
 
     [[nodiscard]] bool matchesWithBpcts(const TimingCtx &other) const {
         auto match = [](units::isq::Time auto lhs, units::isq::Time auto rhs) { return rhs == 0 || lhs == rhs; };
@@ -68,10 +68,12 @@ public:
 
     [[nodiscard]] auto operator<=>(const TimingCtx &other) const {
         parse();
+        other.parse();
         return std::tie(_cid, _sid, _pid, _gid, bpcts.value()) <=> std::tie(other._cid, other._sid, other._pid, other._gid, other.bpcts.value());
     }
     [[nodiscard]] bool operator==(const TimingCtx &other) const {
         parse();
+        other.parse();
         return bpcts == other.bpcts && _cid == other._cid && _sid == other._sid && _pid == other._pid && _gid == other._gid;
     }
 
-- 
2.43.0


From 939756d67da9d5ae4d69881feb3a22d43e0c4f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:21 +0000
Subject: [PATCH 16/80] fix: TimingCtx: refuse selector values with trailing
 characters or outside the 32 bit range

---
 src/core/include/TimingCtx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 38b8318..3a530b5 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -158,7 +158,7 @@ public:
 
             if (WILDCARD != valueString) {
                 int32_t intValue = 0;
-                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec == std::errc::invalid_argument) {
+                if (const auto result = std::from_chars(valueString.data(), valueString.data() + valueString.size(), intValue); result.ec != std::errc{} || result.ptr != valueString.data() + valueString.size()) {
                     throw std::invalid_argument(std::format("Value: '{}' in '{}' is not a valid integer", valueString, tag));
                 }
 
-- 
2.43.0


From 539c468fa7a0602ee208c8af69b11761f91ad7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:21 +0000
Subject: [PATCH 17/80] fix: TimingCtx: toString() and hash() may throw for an
 invalid selector, do not terminate

---
 src/core/include/TimingCtx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/include/TimingCtx.hpp b/src/core/include/TimingCtx.hpp
index 3a530b5..af5e33e 100644
--- a/src/core/include/TimingCtx.hpp
+++ b/src/core/include/TimingCtx.hpp
@@ -78,7 +78,7 @@ public:
     }
 
     template<bool forceParse = true>
-    [[nodiscard]] std::string toString() const noexcept(forceParse) {
+    [[nodiscard]] std::string toString() const {
         if constexpr (forceParse) {
             parse();
         }
@@ -99,7 +99,7 @@ public:
         return std::format("{}{}", SELECTOR_PREFIX, opencmw::join(segments, ":"));
     }
 
-    [[nodiscard]] std::size_t hash() const noexcept {
+    [[nodiscard]] std::size_t hash() const {
         parse();
         std::size_t seed = 0;
         detail::hash_combine(seed, _cid);
@@ -214,7 +214,7 @@ ENABLE_REFLECTION_FOR(opencmw::TimingCtx, selector, bpcts);
 namespace std {
 template<>
 struct hash<opencmw::TimingCtx> {
-    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const noexcept {
+    [[nodiscard]] size_t operator()(const opencmw::TimingCtx &ctx) const {
         return ctx.hash();
     }
 };
-- 
2.43.0


From 15788730c85b943e9bb211ec50eb0438791cdc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:42 +0000
Subject: [PATCH 18/80] fix: Annotated: constructing or assigning from an
 lvalue must not move from it

---
 src/core/include/opencmw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 4c2d0a9..3bbb4d7 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -393,7 +393,7 @@ struct Annotated<T, Q, description, modifier, groups...> : public T { // inherit
 
     template<typename U>
     requires (std::is_assignable_v<T, U>)
-    Annotated(U&& u) : T(std::move(u)) {}
+    Annotated(U&& u) : T(std::forward<U>(u)) {}
 
     [[nodiscard]] constexpr std::string_view getUnit() const noexcept { return unitStr.c_str(); }
     [[nodiscard]] constexpr std::string_view getQuantity() const noexcept { return quantityStr.c_str(); }
-- 
2.43.0


From 55795b9f75847c3ed4219811260014a307f2bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:35 +0000
Subject: [PATCH 19/80] fix: NumberFilter: numbers that do not fit the type
 match nothing

---
 src/core/include/Filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/Filters.hpp b/src/core/include/Filters.hpp
index f407d8c..e963b3a 100644
--- a/src/core/include/Filters.hpp
+++ b/src/core/include/Filters.hpp
@@ -45,11 +45,11 @@ class NumberFilter : public AbstractFilter {
 public:
     bool operator()(std::string_view notified, std::string_view subscribed) const override {
         T          subscribedNumber = {};
-        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(subscribed, subscribedNumber); rc != std::errc{}) {
             return false;
         }
         T          notifiedNumber = {};
-        if (const auto rc = parseNumber(notified, notifiedNumber); rc == std::errc::invalid_argument) {
+        if (const auto rc = parseNumber(notified, notifiedNumber); rc != std::errc{}) {
             return false;
         }
 
-- 
2.43.0


From a0363879eb82240180d0da2b78453a599f8b99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:35 +0000
Subject: [PATCH 20/80] fix: Topic: encode parameter names in the ZMQ topic,
 too

---
 src/core/include/Topic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/Topic.hpp b/src/core/include/Topic.hpp
index 3fc228f..55cbae6 100644
--- a/src/core/include/Topic.hpp
+++ b/src/core/include/Topic.hpp
@@ -119,7 +119,7 @@ public:
             if (!isFirst) {
                 zmqTopic += "&"s;
             }
-            zmqTopic += key;
+            zmqTopic += opencmw::URI<>::encode(key);
             if (value) {
                 zmqTopic += "="s + opencmw::URI<>::encode(*value);
             }
-- 
2.43.0


From a6bdfc3cc6bcab47efecd9ebfecc478b9086110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:08 +0000
Subject: [PATCH 21/80] fix: a moved-from IoBuffer no longer claims a size and
 capacity it has not

---
 src/serialiser/include/IoBuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 305341b..ec9d68f 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -269,9 +269,9 @@ public:
     [[nodiscard]] IoBuffer(IoBuffer &&other) noexcept
         : _allocator(other._allocator.resource())
         , _buffer(std::exchange(other._buffer, nullptr))
-        , _position(other._position)
-        , _size(other._size)
-        , _capacity(other._capacity) {}
+        , _position(std::exchange(other._position, 0LU))
+        , _size(std::exchange(other._size, 0LU))
+        , _capacity(std::exchange(other._capacity, 0LU)) {}
 
     constexpr ~IoBuffer() {
         freeInternalBuffer();
-- 
2.43.0


From f241c635e55d8797eb9ac3871fac9d66c6523e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:08 +0000
Subject: [PATCH 22/80] fix: IoBuffer::swap exchanges the memory resources
 together with the memory

---
 src/serialiser/include/IoBuffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index ec9d68f..40a13e1 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -282,6 +282,10 @@ public:
         std::swap(_size, other._size);
         std::swap(_capacity, other._capacity);
         std::swap(_buffer, other._buffer);
+        // N.B. polymorphic_allocator is not assignable, the memory resource must follow the memory it has to release
+        auto *const resource = _allocator.resource();
+        std::construct_at(&_allocator, other._allocator.resource());
+        std::construct_at(&other._allocator, resource);
     }
 
     IoBuffer &operator=(const IoBuffer &other) {
-- 
2.43.0


From e538bf0f35014cdaa8c2c99d91af8f4724f82ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:08 +0000
Subject: [PATCH 23/80] fix: IoBuffer::at checks that the whole element is in
 range

---
 src/serialiser/include/IoBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 40a13e1..4bf5149 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -328,7 +328,7 @@ public:
     template<typename R, bool checkRange = true>
     OPENCMW_FORCEINLINE constexpr R &at(const size_t index) noexcept(!checkRange) {
         if constexpr (checkRange) {
-            if (index >= _size) {
+            if (index >= _size || sizeof(R) > _size - index) {
                 throw std::out_of_range(std::format("requested index {} is out-of-range [0,{}]", index, _size));
             }
         }
-- 
2.43.0


From 13cbb240dc8507b42365d724fdbacb0b664e16ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:23 +0000
Subject: [PATCH 24/80] fix: IoBuffer reads stay inside the content when a
 length on the wire is wrong

---
 src/serialiser/include/IoBuffer.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 4bf5149..23ec1ec 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -204,11 +204,17 @@ private:
         }
     }
 
+    [[nodiscard]] constexpr std::size_t bytesLeft() const noexcept { return _position < _size ? _size - _position : 0LU; }
+
     std::string_view extractStringView() const noexcept {
-        const auto strLength = static_cast<std::size_t>(swapEndian(get<int32_t>()) - 1);
-        auto       start     = reinterpret_cast<const char *>(_buffer + _position);
-        _position += strLength + 1LU; // +1 for the zero-terminating byte
-        return { start, strLength };
+        const auto        wireLength = swapEndian(get<int32_t>());                                                                          // including the zero-terminating byte
+        const std::size_t nBytes     = std::min(wireLength > 0 ? static_cast<std::size_t>(wireLength) : 0LU, bytesLeft()); // N.B. the length on the wire may be wrong
+        if (nBytes == 0LU) {
+            return {};
+        }
+        auto start = reinterpret_cast<const char *>(_buffer + _position);
+        _position += nBytes;
+        return { start, nBytes - 1LU };
     }
 
     template<MetaInfo meta = WITH, typename Container>
@@ -422,6 +428,9 @@ public:
         if constexpr (Number<R>) {
             const std::size_t localPosition = _position;
             _position += sizeof(R);
+            if (localPosition > _size || sizeof(R) > _size - localPosition) {
+                return R{}; // truncated data
+            }
             R value;
             std::memcpy(&value, _buffer + localPosition, sizeof(R));
             return value;
@@ -437,7 +446,8 @@ public:
     template<ArrayOrVector Container, bool checkRange = false>
     OPENCMW_FORCEINLINE constexpr Container &getArray(Container &input, const std::size_t requestedSize = SIZE_MAX) const noexcept(!checkRange) {
         using R                        = Container::value_type;
-        const auto        arraySize    = std::min(static_cast<std::size_t>(get<int32_t>()), _size - _position);
+        const auto        wireSize     = static_cast<std::size_t>(get<int32_t>());
+        const auto        arraySize    = std::min(wireSize, bytesLeft() / (StringLike<R> ? sizeof(int32_t) : sizeof(R)));
         const std::size_t minArraySize = std::min(arraySize, requestedSize);
 
         if constexpr (opencmw::is_vector<Container>) {
-- 
2.43.0


From b285afa4e9ae44ba2ca07a6af94a03a846f28c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:26 +0000
Subject: [PATCH 25/80] fix: YaS: deserialising a map of non-primitive values
 replaces the previous entries

---
 src/serialiser/include/IoSerialiserYaS.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 3896885..9bbb5bf 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -252,6 +252,7 @@ struct IoSerialiser<YaS, T> {
             std::string value_type_name           = buffer.get<std::string>();
             std::string value_type_name_secondary = buffer.get<std::string>();
             auto        value_elements            = static_cast<std::size_t>(buffer.get<int32_t>());
+            value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
                 FieldDescriptionShort subfield{
                     .headerStart       = buffer.position(),
-- 
2.43.0


From 6d7891447941fe6e54c29f8fd331750f33fecaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:26 +0000
Subject: [PATCH 26/80] fix: YaS: sets of other element types than int can be
 deserialised

---
 src/serialiser/include/IoSerialiserYaS.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 9bbb5bf..e4f6cc6 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -157,7 +157,7 @@ struct IoSerialiser<YaS, std::set<V>> {
     }
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, std::set<V> &value) noexcept {
         auto           size = buffer.getArray<int32_t, 1>();
-        std::vector<V> data{ size[0] };
+        std::vector<V> data;
         buffer.getArray(data, static_cast<size_t>(size[0]));
         value.clear();
         std::copy(data.begin(), data.end(), std::inserter(value, value.begin()));
-- 
2.43.0


From f9b8cc40c4a0ba6e0ecc94fb978e9a553786dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:26 +0000
Subject: [PATCH 27/80] fix: YaS: refuse field headers that point backwards or
 outside the buffer

---
 src/serialiser/include/IoSerialiserYaS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index e4f6cc6..ab43307 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -390,6 +390,9 @@ struct FieldHeaderReader<YaS> {
         result.fieldName           = buffer.get<std::string_view>(); // full field name
         result.dataStartPosition   = result.headerStart + dataStartOffset;
         result.dataEndPosition     = result.headerStart + dataStartOffset + dataSize;
+        if (result.dataStartPosition < buffer.position() || result.dataEndPosition < result.dataStartPosition || result.dataEndPosition > buffer.size()) { // N.B. also catches negative offsets and sizes
+            throw ProtocolException("invalid field header at buffer[{}, size:{}]", result.headerStart, buffer.size());
+        }
         // the following information is optional
         // e.g. could skip to 'headerStart + dataStartOffset' and start reading the data, or
         // e.g. could skip to 'headerStart + dataStartOffset + dataSize' and start reading the next field header
-- 
2.43.0


From 61bf2706e5e9f011531b0bcd6645b635df08e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:26 +0000
Subject: [PATCH 28/80] fix: YaS: refuse maps with inconsistent numbers of keys
 and values

---
 src/serialiser/include/IoSerialiserYaS.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index ab43307..82e25b8 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -213,6 +213,9 @@ struct IoSerialiser<YaS, T> {
         using K                  = typename T::key_type;
         using V                  = typename T::mapped_type;
         const auto     nElements = static_cast<uint32_t>(buffer.get<int32_t>());
+        if (nElements > buffer.size()) { // N.B. every entry takes at least one byte
+            throw ProtocolException("invalid number of entries {} for field {}", nElements, field.fieldName);
+        }
 
         const auto     keyType   = buffer.get<uint8_t>();
         std::vector<K> keys;
@@ -252,6 +255,9 @@ struct IoSerialiser<YaS, T> {
             std::string value_type_name           = buffer.get<std::string>();
             std::string value_type_name_secondary = buffer.get<std::string>();
             auto        value_elements            = static_cast<std::size_t>(buffer.get<int32_t>());
+            if (value_elements != keys.size()) {
+                throw ProtocolException("value array length mismatch for field {} - required {} vs. have {}", field.fieldName, keys.size(), value_elements);
+            }
             value.clear();
             for (std::size_t i = 0; i < value_elements; i++) {
                 FieldDescriptionShort subfield{
-- 
2.43.0


From 8bdce2a28492000a051d7fd07f97cc48be37d7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:26 +0000
Subject: [PATCH 29/80] fix: YaS: refuse more elements than a std::array can
 hold

---
 src/serialiser/include/IoSerialiserYaS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 82e25b8..1f44f5d 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -107,9 +107,9 @@ struct IoSerialiser<YaS, T> {
         buffer.put(std::array<int32_t, 1>{ static_cast<int32_t>(value.size()) });
         buffer.put(value);
     }
-    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    OPENCMW_FORCEINLINE constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
         buffer.getArray<int32_t, 1>();
-        buffer.getArray(value);
+        buffer.getArray<T, true>(value);
     }
 };
 
-- 
2.43.0


From f5c40452d9dbbaea5b7ea801d80dcdb622d0dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:52 +0000
Subject: [PATCH 30/80] fix: YaS: refuse multi-dimensional arrays with fewer
 elements than their dimensions require

---
 src/serialiser/include/IoSerialiserYaS.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserYaS.hpp b/src/serialiser/include/IoSerialiserYaS.hpp
index 1f44f5d..e8e5c0b 100644
--- a/src/serialiser/include/IoSerialiserYaS.hpp
+++ b/src/serialiser/include/IoSerialiserYaS.hpp
@@ -126,7 +126,7 @@ struct IoSerialiser<YaS, T> {
         buffer.put(dims);
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<typename T::size_t_>(dimWire[i]);
@@ -140,6 +140,15 @@ struct IoSerialiser<YaS, T> {
             value.offset(i - 1) = 0;
         }
         buffer.getArray(value.elements());
+
+        uint64_t nElements = 1U;
+        for (const auto dimension : value.dimensions()) {
+            nElements = std::min(nElements * dimension, uint64_t{ 1 } << 32U);
+        }
+        if (nElements > value.elements().size()) {
+            value = T();
+            throw ProtocolException("dimensions of field {} exceed the number of its elements", field.fieldName);
+        }
     }
 };
 
-- 
2.43.0


From 2097b9703c4b56bf73171fc89b84d4d246b637ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:38 +0000
Subject: [PATCH 31/80] fix: a nested object is only read from a nested object,
 other field types are reported and skipped

---
 src/serialiser/include/IoSerialiser.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 570460f..a7f92ba 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -343,6 +343,13 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 moveToFieldEndBufferPosition(buffer, field);
                 return;
             } else if constexpr (isReflectableClass<MemberType>()) {
+                if (field.intDataType != IoSerialiser<protocol, START_MARKER>::getDataTypeId() && field.dataEndPosition != std::numeric_limits<size_t>::max()) { // mismatching data-type
+                    moveToFieldEndBufferPosition(buffer, field);
+                    if constexpr (check != ProtocolCheck::IGNORE) {
+                        handleDeserialisationError<check>(info, "mismatched field type for {}::{} - requested type: {} got: {}", member.declarator.name, member.name, typeName<MemberType>, field.intDataType);
+                    }
+                    return;
+                }
                 field.intDataType = IoSerialiser<protocol, START_MARKER>::getDataTypeId();
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, MemberType>::getDataTypeId();
-- 
2.43.0


From 70ebdcc14480085fbe40f3f1b0ef6dea0c5cd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:49 +0000
Subject: [PATCH 32/80] fix: ExternalModifier::UNKNOWN, which readers use for
 headers without a (valid) modifier, can be formatted

---
 src/core/include/opencmw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 3bbb4d7..6fbea11 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -308,7 +308,7 @@ struct std::formatter<opencmw::ExternalModifier> {
         case RO_DEPRECATED: return std::format_to(ctx.out(), "RO_DEPRECATED");
         case RW_PRIVATE: return std::format_to(ctx.out(), "RW_PRIVATE");
         case RO_PRIVATE: return std::format_to(ctx.out(), "RO_PRIVATE");
-        case UNKNOWN: [[fallthrough]];
+        case UNKNOWN: return std::format_to(ctx.out(), "UNKNOWN");
             default:
                 throw std::logic_error("unknown ExternalModifier state");
         }
-- 
2.43.0


From e8de8adcb34a0c174204cd08857de10f2911f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:49 +0000
Subject: [PATCH 33/80] fix: fields of mismatching type, unit or access are
 skipped in formats without a field size too

---
 src/serialiser/include/IoSerialiser.hpp | 40 ++++++++++++++-----------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index a7f92ba..7323b88 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -250,6 +250,21 @@ OPENCMW_FORCEINLINE void moveToFieldEndBufferPosition(IoBuffer &buffer, const Fi
     }
 }
 
+/// continue after the field's data; formats which do not include the field size in the header parse the data just to skip it
+template<SerialiserProtocol protocol>
+constexpr void skipFieldData(IoBuffer &buffer, const FieldDescriptionLong &field) {
+    if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
+        moveToFieldEndBufferPosition(buffer, field);
+        return;
+    }
+    if constexpr (requires { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); }) {
+        if (field.intDataType == IoSerialiser<protocol, START_MARKER>::getDataTypeId()) {
+            buffer.set_position(field.dataStartPosition - 1); // reset buffer position for the nested deserialiser to read again
+        }
+        IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
+    }
+}
+
 template<ProtocolCheck check, typename... ErrorArgs>
 neverinline constexpr void handleDeserialisationError(DeserialiserInfo &info, std::format_string<ErrorArgs...> errorFormat, ErrorArgs &&...errorArgs) noexcept(check != ProtocolCheck::ALWAYS) {
     const auto text = std::format(errorFormat, std::forward<ErrorArgs>(errorArgs)...);
@@ -321,16 +336,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                 handleDeserialisationError<check>(info, "missing field (type:{}) {}::{} at buffer[{}, size:{}]", field.intDataType, parent.fieldName, field.fieldName, buffer.position(), buffer.size());
                 info.additionalFields.emplace_back(std::make_tuple(std::format("{}::{}", parent.fieldName, field.fieldName), field.intDataType));
             }
-            if (field.dataEndPosition != std::numeric_limits<size_t>::max()) {
-                moveToFieldEndBufferPosition(buffer, field);
-            } else { // use deserialise OTHER to continue parsing the data just to skip it for formats which do not include the field size in the header
-                if constexpr (requires { IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST); }) {
-                    if (field.intDataType == IoSerialiser<protocol, START_MARKER>::getDataTypeId()) {
-                        buffer.set_position(field.dataStartPosition - 1); // reset buffer position for the nested deserialiser to read again
-                    }
-                    IoSerialiser<protocol, OTHER>::deserialise(buffer, field, OTHER_INST);
-                }
-            }
+            skipFieldData<protocol>(buffer, field);
             continue;
         }
 
@@ -340,11 +346,11 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
 
             using MemberType = std::remove_reference_t<decltype(getAnnotatedMember(unwrapPointer(member(value))))>;
             if constexpr (!is_writable(member) || is_static(member)) {
-                moveToFieldEndBufferPosition(buffer, field);
+                skipFieldData<protocol>(buffer, field);
                 return;
             } else if constexpr (isReflectableClass<MemberType>()) {
-                if (field.intDataType != IoSerialiser<protocol, START_MARKER>::getDataTypeId() && field.dataEndPosition != std::numeric_limits<size_t>::max()) { // mismatching data-type
-                    moveToFieldEndBufferPosition(buffer, field);
+                if (field.intDataType != IoSerialiser<protocol, START_MARKER>::getDataTypeId()) { // mismatching data-type
+                    skipFieldData<protocol>(buffer, field);
                     if constexpr (check != ProtocolCheck::IGNORE) {
                         handleDeserialisationError<check>(info, "mismatched field type for {}::{} - requested type: {} got: {}", member.declarator.name, member.name, typeName<MemberType>, field.intDataType);
                     }
@@ -354,7 +360,7 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, MemberType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-                    moveToFieldEndBufferPosition(buffer, field);
+                    skipFieldData<protocol>(buffer, field);
                     if constexpr (check == ProtocolCheck::IGNORE) {
                         return; // don't write -> skip to next
                     }
@@ -371,17 +377,17 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     }
                     if (std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field unit for {}::{} - requested unit '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getUnit(), field.unit);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipFieldData<protocol>(buffer, field);
                         return;
                     }
                     if (std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
                         handleDeserialisationError<check>(info, "mismatched field quantity for {}::{} - requested quantity '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getQuantity(), field.quantity);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipFieldData<protocol>(buffer, field);
                         return;
                     }
                     if (is_readonly(unwrapPointer(member(value)).getModifier())) { // should not set field via external reference
                         handleDeserialisationError<check>(info, "mismatched field access modifier for {}::{} - requested '{}' received '{}'", member.declarator.name, member.name, (unwrapPointer(member(value)).getModifier()), field.modifier);
-                        moveToFieldEndBufferPosition(buffer, field);
+                        skipFieldData<protocol>(buffer, field);
                         return;
                     }
                 }
-- 
2.43.0


From fddbf1b4844dd753ffa6731abbe1dd9d61b3e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:00 +0000
Subject: [PATCH 34/80] fix: do not compare units and quantities in formats
 whose field headers carry none (Json, CmwLight)

---
 src/serialiser/include/IoSerialiser.hpp       | 24 ++++++++++++-------
 .../include/IoSerialiserCmwLight.hpp          |  3 +++
 src/serialiser/include/IoSerialiserJson.hpp   |  3 +++
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/serialiser/include/IoSerialiser.hpp b/src/serialiser/include/IoSerialiser.hpp
index 7323b88..a90c8c3 100644
--- a/src/serialiser/include/IoSerialiser.hpp
+++ b/src/serialiser/include/IoSerialiser.hpp
@@ -131,6 +131,10 @@ struct FieldHeaderWriter { // struct needed due to partial specialisation
     constexpr std::size_t static put(IoBuffer & /*buffer*/, FieldDescription auto && /*field*/, const DataType & /*data*/) { return 0; }
 };
 
+/// whether the protocol's field headers carry the unit and quantity of a field
+template<SerialiserProtocol protocol>
+inline constexpr bool hasFieldMetaInfo = true;
+
 template<SerialiserProtocol protocol>
 inline DeserialiserInfo checkHeaderInfo(IoBuffer & /*buffer*/, DeserialiserInfo info, const ProtocolCheck /*protocolCheckVariant*/) { return info; }
 
@@ -375,15 +379,17 @@ constexpr void deserialise(IoBuffer &buffer, ReflectableClass auto &value, Deser
                     if (is_private(unwrapPointer(member(value)).getModifier())) { // warn for private access
                         handleDeserialisationError<check>(info, "private/internal field access for {}::{} - description: {}", member.declarator.name, member.name, unwrapPointer(member(value)).getDescription());
                     }
-                    if (std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
-                        handleDeserialisationError<check>(info, "mismatched field unit for {}::{} - requested unit '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getUnit(), field.unit);
-                        skipFieldData<protocol>(buffer, field);
-                        return;
-                    }
-                    if (std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
-                        handleDeserialisationError<check>(info, "mismatched field quantity for {}::{} - requested quantity '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getQuantity(), field.quantity);
-                        skipFieldData<protocol>(buffer, field);
-                        return;
+                    if constexpr (hasFieldMetaInfo<protocol>) {
+                        if (std::string_view(unwrapPointer(member(value)).getUnit()).compare(field.unit)) { // error on unit mismatch
+                            handleDeserialisationError<check>(info, "mismatched field unit for {}::{} - requested unit '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getUnit(), field.unit);
+                            skipFieldData<protocol>(buffer, field);
+                            return;
+                        }
+                        if (std::string_view(unwrapPointer(member(value)).getQuantity()).compare(field.quantity)) { // error on unit mismatch
+                            handleDeserialisationError<check>(info, "mismatched field quantity for {}::{} - requested quantity '{}' received '{}'", member.declarator.name, member.name, unwrapPointer(member(value)).getQuantity(), field.quantity);
+                            skipFieldData<protocol>(buffer, field);
+                            return;
+                        }
                     }
                     if (is_readonly(unwrapPointer(member(value)).getModifier())) { // should not set field via external reference
                         handleDeserialisationError<check>(info, "mismatched field access modifier for {}::{} - requested '{}' received '{}'", member.declarator.name, member.name, (unwrapPointer(member(value)).getModifier()), field.modifier);
diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 0809df6..e92ec61 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -13,6 +13,9 @@ namespace opencmw {
 struct CmwLight : Protocol<"CmwLight"> {
 };
 
+template<>
+inline constexpr bool hasFieldMetaInfo<CmwLight> = false;
+
 namespace cmwlight {
 
 void skipString(IoBuffer &buffer);
diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index a99220b..3b07e0e 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -13,6 +13,9 @@ namespace opencmw {
 
 struct Json : Protocol<"Json"> {}; // as specified in https://www.json.org/json-en.html
 
+template<>
+inline constexpr bool hasFieldMetaInfo<Json> = false;
+
 namespace json {
 
 constexpr bool isNumberChar(uint8_t c) { return (c >= '+' && c <= '9' && c != '/' && c != ',') || c == 'e' || c == 'E'; }
-- 
2.43.0


From 9fdce0436bc225900ac19d3a8072e59cd1635de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:52 +0000
Subject: [PATCH 35/80] fix: CmwLight: maps replace earlier entries and keep
 the enclosing structure's field count

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index e92ec61..3bde38a 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -451,8 +451,10 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
     constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto &parent, std::map<std::string, ValueType> &value) {
         using protocol         = CmwLight;
         constexpr auto   check = ProtocolCheck::IGNORE;
-        IoSerialiser<protocol, START_MARKER>::deserialise(buffer, parent, START_MARKER_INST);
-        auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, parent.subfields);
+        value.clear();
+        auto mapField = parent; // N.B. the parent's own number of remaining fields must be kept
+        IoSerialiser<protocol, START_MARKER>::deserialise(buffer, mapField, START_MARKER_INST);
+        auto             field = detail::newFieldHeader<CmwLight, true>(buffer, "", parent.hierarchyDepth, ValueType{}, mapField.subfields);
         while (buffer.position() < buffer.size()) {
             DeserialiserInfo info;
             auto previousSubFields = field.subfields;
-- 
2.43.0


From 6783d157c66556b452723403af5bafcd3ab4e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:52 +0000
Subject: [PATCH 36/80] fix: CmwLight: skip map entries of mismatching type

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 3bde38a..4a99a83 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -484,7 +484,7 @@ struct IoSerialiser<CmwLight, std::map<std::string, ValueType>> {
             } else {
                 constexpr int requestedType = IoSerialiser<protocol, ValueType>::getDataTypeId();
                 if (requestedType != field.intDataType && requestedType != IoSerialiser<protocol, OTHER>::getDataTypeId()) { // mismatching data-type
-                    detail::moveToFieldEndBufferPosition(buffer, field);
+                    detail::skipFieldData<protocol>(buffer, field);
                     detail::handleDeserialisationError<check>(info, "mismatched field type for map field {} - requested type: {} (typeID: {}) got: {}", field.fieldName, typeName<ValueType>, requestedType, field.intDataType);
                     continue;
                 }
-- 
2.43.0


From f813704397b927d7330f8ad53b386f6d821401ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:52 +0000
Subject: [PATCH 37/80] fix: CmwLight: never skip backwards or beyond the
 buffer

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index 4a99a83..aa13b2b 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -20,6 +20,13 @@ namespace cmwlight {
 
 void skipString(IoBuffer &buffer);
 
+inline void skipElements(IoBuffer &buffer, const int32_t nElements, const std::size_t elementSize) {
+    if (nElements < 0 || buffer.position() > buffer.size() || static_cast<std::size_t>(nElements) > (buffer.size() - buffer.position()) / elementSize) {
+        throw ProtocolException("invalid number of elements {} at buffer position {} of {}", nElements, buffer.position(), buffer.size());
+    }
+    buffer.skip(static_cast<int>(static_cast<std::size_t>(nElements) * elementSize));
+}
+
 template<typename T>
 void skipRawArray(IoBuffer &buffer) {
     if constexpr (is_stringlike<T>) {
@@ -27,7 +34,7 @@ void skipRawArray(IoBuffer &buffer) {
             skipString(buffer);
         }
     } else {
-        buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(T)));
+        skipElements(buffer, buffer.get<int32_t>(), sizeof(T));
     }
 }
 
@@ -41,8 +48,8 @@ inline void skipString(IoBuffer &buffer) { skipRawArray<char>(buffer); }
 
 template<typename T>
 void skipMultiArray(IoBuffer &buffer) {
-    buffer.skip(buffer.get<int32_t>() * static_cast<int32_t>(sizeof(int32_t))); // skip size header
-    skipRawArray<T>(buffer);                                                      // skip elements
+    skipElements(buffer, buffer.get<int32_t>(), sizeof(int32_t)); // skip size header
+    skipRawArray<T>(buffer);                                      // skip elements
 }
 
 template<typename T>
-- 
2.43.0


From 1aa49c122816e75ac4835f188dc1c7544e58917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:52 +0000
Subject: [PATCH 38/80] fix: CmwLight: refuse more elements than a std::array
 can hold

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index aa13b2b..c3baecc 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -137,10 +137,10 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value);
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
-        const int nx = buffer.get<int32_t>();
-        const int ny = buffer.get<int32_t>();
-        buffer.getArray(value, nx * ny);
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) {
+        const auto nx = static_cast<std::size_t>(std::max(buffer.get<int32_t>(), 0));
+        const auto ny = static_cast<std::size_t>(std::max(buffer.get<int32_t>(), 0));
+        buffer.getArray<T, true>(value, nx * ny);
     }
 };
 
-- 
2.43.0


From d39a9ff169ae55638f7a49c4ada66998e92f5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:52 +0000
Subject: [PATCH 39/80] fix: CmwLight: refuse multi-dimensional arrays with
 fewer elements than their dimensions require

---
 src/serialiser/include/IoSerialiserCmwLight.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index c3baecc..b45fcbe 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -189,7 +189,7 @@ struct IoSerialiser<CmwLight, T> {
         buffer.put(value.elements()); // todo: account for strides and offsets (possibly use iterators?)
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, T &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
         const std::array<int32_t, T::n_dims_> dimWire = buffer.getArray<int32_t, T::n_dims_>();
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
@@ -203,6 +203,15 @@ struct IoSerialiser<CmwLight, T> {
             value.offset(i - 1) = 0;
         }
         buffer.getArray(value.elements());
+
+        uint64_t nElements = 1U;
+        for (const auto dimension : value.dimensions()) {
+            nElements = std::min(nElements * dimension, uint64_t{ 1 } << 32U);
+        }
+        if (nElements > value.elements().size()) {
+            value = T();
+            throw ProtocolException("dimensions of field {} exceed the number of its elements", field.fieldName);
+        }
     }
 };
 
-- 
2.43.0


From 904afcac8cb18c3012da46328340ab68a7db82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:25 +0000
Subject: [PATCH 40/80] fix: CmwLight: sets use the layout of the array type
 they are labelled as

---
 .../include/IoSerialiserCmwLight.hpp          | 22 +++++--------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserCmwLight.hpp b/src/serialiser/include/IoSerialiserCmwLight.hpp
index b45fcbe..02e05d8 100644
--- a/src/serialiser/include/IoSerialiserCmwLight.hpp
+++ b/src/serialiser/include/IoSerialiserCmwLight.hpp
@@ -234,6 +234,8 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
     }
 
     constexpr static void serialise(IoBuffer &buffer, FieldDescription auto const & /*field*/, const std::set<MemberType> &value) noexcept {
+        buffer.put(1);
+        buffer.put(static_cast<int32_t>(value.size()));
         buffer.put(static_cast<int32_t>(value.size()));
         if constexpr (std::is_arithmetic_v<MemberType>) {
             for (const auto v : value) {
@@ -246,23 +248,11 @@ struct IoSerialiser<CmwLight, std::set<MemberType>> {
         }
     }
 
-    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) noexcept {
+    constexpr static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, std::set<MemberType> &value) {
         value.clear();
-        auto n_elems = buffer.get<int32_t>();
-        for (int i = 0; i < n_elems; i++) {
-            MemberType            v;
-            FieldDescriptionShort subfield{
-                .headerStart       = buffer.position(),
-                .dataStartPosition = buffer.position(),
-                .dataEndPosition   = 0U,
-                .subfields         = 0,
-                .fieldName         = std::format("{}[{}]", field.fieldName, i),
-                .intDataType       = IoSerialiser<CmwLight, MemberType>::getDataTypeId(),
-                .hierarchyDepth    = static_cast<uint8_t>(field.hierarchyDepth + 1),
-            };
-            IoSerialiser<CmwLight, MemberType>::deserialise(buffer, subfield, v);
-            value.insert(v);
-        }
+        std::vector<MemberType> elements;
+        IoSerialiser<CmwLight, std::vector<MemberType>>::deserialise(buffer, field, elements);
+        value.insert(elements.begin(), elements.end());
     }
 };
 
-- 
2.43.0


From e2c010346bef2b59a2bf33743a8676ebdfc2ae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:28 +0000
Subject: [PATCH 41/80] fix: Json: map entries are stored, and replace earlier
 ones

---
 src/serialiser/include/IoSerialiserJson.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 3b07e0e..7df1b51 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -605,9 +605,10 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
     static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
         using namespace std::string_view_literals;
         DeserialiserInfo     info{};
+        value.clear();
         FieldDescriptionLong fieldHeader{ .headerStart = 0, .dataStartPosition = 0, .dataEndPosition = 0, .subfields = 0, .fieldName = ""sv, .unit = ""sv, .description = ""sv, .modifier = UNKNOWN, .intDataType = IoSerialiser<Json, V>::getDataTypeId(), .hierarchyDepth = static_cast<uint8_t>(field.hierarchyDepth + 1U) };
         for (FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader); fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId(); FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader)) {
-            auto fieldValue = value[std::string(fieldHeader.fieldName)];
+            auto &fieldValue = value[std::string(fieldHeader.fieldName)];
             IoSerialiser<Json, V>::deserialise(buffer, fieldHeader, fieldValue);
         }
     }
-- 
2.43.0


From d1d73b40e3dfc9a727dbe5c75a88fe040ef6739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:28 +0000
Subject: [PATCH 42/80] fix: Json: empty maps are written as empty objects

---
 src/serialiser/include/IoSerialiserJson.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 7df1b51..05bb948 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -599,7 +599,9 @@ requires(is_stringlike<typename T::key_type>) struct IoSerialiser<Json, T> {
             memberField.fieldName = entry.first;
             FieldHeaderWriter<Json>::put<IoBuffer::WITHOUT>(buffer, memberField, entry.second);
         }
-        buffer.resize(buffer.size() - 2); // remove trailing comma
+        if (!value.empty()) {
+            buffer.resize(buffer.size() - 2); // remove trailing comma
+        }
         buffer.put<IoBuffer::MetaInfo::WITHOUT>("\n}\n"sv);
     }
     static void deserialise(IoBuffer &buffer, FieldDescription auto const &field, T &value) {
-- 
2.43.0


From 8ef8b619e3145cee75aff97f4c03f9e85ef9506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:28 +0000
Subject: [PATCH 43/80] fix: Json: do not read numbers beyond the end of the
 buffer

---
 src/serialiser/include/IoSerialiserJson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 05bb948..d04afbe 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -403,7 +403,7 @@ struct IoSerialiser<Json, T> {
         const auto start = buffer.position();
         const auto data  = reinterpret_cast<const char *>(buffer.data());
         // N.B. assumes that any reasonable number representation has a maximum of 30 characters
-        const auto stop = start + 30;
+        const auto stop = start + std::min<std::size_t>(30, start < buffer.size() ? buffer.size() - start : 0);
 
         //        auto     stop  = 0;
         //        for (size_t i = start; i < buffer.size(); i++) {
-- 
2.43.0


From 3605bb3cd113e30362669d4d326f725240caec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:46 +0000
Subject: [PATCH 44/80] fix: Json: malformed text ends deserialisation instead
 of looping forever

---
 src/serialiser/include/IoSerialiserJson.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index d04afbe..7997ac8 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -352,7 +352,8 @@ struct FieldHeaderReader<Json> {
             return;
         }
 
-        detail::handleDeserialisationError<protocolCheckVariant>(info, "json malformed, unexpected '{}' at buffer position {}", buffer.at<char>(buffer.position()), buffer.position());
+        // N.B. there is no way to tell where the next field starts
+        throw ProtocolException("json malformed, unexpected '{}' at buffer position {}", buffer.at<char>(buffer.position()), buffer.position());
     }
 };
 
-- 
2.43.0


From 57b02efd18027b22d2af31f868b987af81c8f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:46 +0000
Subject: [PATCH 45/80] fix: Json: unicode escape sequences are decoded instead
 of being replaced by '_'

---
 src/serialiser/include/IoSerialiserJson.hpp | 48 ++++++++++++++++++---
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 7997ac8..9dcfd3f 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -69,6 +69,37 @@ template<StringLike T>
     buffer.put('"');
 }
 
+/// reads the four hexadecimal digits of a \\uXXXX escape sequence
+inline uint32_t readHexNumber(IoBuffer &buffer) {
+    if (buffer.position() + 4 >= buffer.size() || !isHexNumber(reinterpret_cast<const char *>(buffer.data() + buffer.position()), 4)) {
+        throw ProtocolException("illegal hex number at position {} of {}", buffer.position(), buffer.size());
+    }
+    uint32_t number = 0;
+    for (int i = 0; i < 4; i++) {
+        const auto digit = buffer.get<uint8_t>();
+        number           = number * 16U + static_cast<uint32_t>(digit <= '9' ? digit - '0' : (digit | 0x20) - 'a' + 10);
+    }
+    return number;
+}
+
+inline void appendUtf8(std::string &string, const uint32_t codePoint) {
+    if (codePoint < 0x80) {
+        string += static_cast<char>(codePoint);
+    } else if (codePoint < 0x800) {
+        string += static_cast<char>(0xC0 | (codePoint >> 6U));
+        string += static_cast<char>(0x80 | (codePoint & 0x3FU));
+    } else if (codePoint < 0x10000) {
+        string += static_cast<char>(0xE0 | (codePoint >> 12U));
+        string += static_cast<char>(0x80 | ((codePoint >> 6U) & 0x3FU));
+        string += static_cast<char>(0x80 | (codePoint & 0x3FU));
+    } else {
+        string += static_cast<char>(0xF0 | (codePoint >> 18U));
+        string += static_cast<char>(0x80 | ((codePoint >> 12U) & 0x3FU));
+        string += static_cast<char>(0x80 | ((codePoint >> 6U) & 0x3FU));
+        string += static_cast<char>(0x80 | (codePoint & 0x3FU));
+    }
+}
+
 inline std::string readString(IoBuffer &buffer) {
     if (buffer.position() >= buffer.size()) {
         return "";
@@ -103,12 +134,19 @@ inline std::string readString(IoBuffer &buffer) {
                 result += '\t';
                 break;
             case 'u': {
-                char *data = reinterpret_cast<char *>(buffer.data() + buffer.position());
-                if ((buffer.position() + 4) >= buffer.size() || !isHexNumber(data, 4)) {
-                    throw ProtocolException("illegal hex number {} at position {} of {}", buffer.asString(buffer.position(), 4), buffer.position(), buffer.size());
+                uint32_t codePoint = readHexNumber(buffer);
+                if (codePoint >= 0xDC00 && codePoint <= 0xDFFF) {
+                    throw ProtocolException("unpaired surrogate at position {} of {}", buffer.position(), buffer.size());
+                }
+                if (codePoint >= 0xD800 && codePoint <= 0xDBFF) { // first half of a surrogate pair
+                    const bool     isEscape = buffer.get<uint8_t>() == '\\' && buffer.get<uint8_t>() == 'u';
+                    const uint32_t low      = isEscape ? readHexNumber(buffer) : 0U;
+                    if (low < 0xDC00 || low > 0xDFFF) {
+                        throw ProtocolException("unpaired surrogate at position {} of {}", buffer.position(), buffer.size());
+                    }
+                    codePoint = 0x10000U + ((codePoint - 0xD800U) << 10U) + (low - 0xDC00U);
                 }
-                buffer.skip<false>(4); // skip escaped unicode char
-                result += '_';         // todo: implement parsing the actual unicode characters
+                appendUtf8(result, codePoint);
                 break;
             }
             default:
-- 
2.43.0


From 817faeb11823376f7b8151d1f196ac929c283532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:46 +0000
Subject: [PATCH 46/80] fix: Json: control characters are escaped

---
 src/serialiser/include/IoSerialiserJson.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 9dcfd3f..7f2d8c1 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -62,6 +62,13 @@ template<StringLike T>
             buffer.put('t');
             break;
         default:
+            if (static_cast<uint8_t>(c) < 0x20) { // other control characters are not allowed in Json strings
+                constexpr std::string_view digits = "0123456789abcdef";
+                buffer.put<IoBuffer::MetaInfo::WITHOUT>(std::string_view("\\u00"));
+                buffer.put(digits[static_cast<uint8_t>(c) >> 4U]);
+                buffer.put(digits[static_cast<uint8_t>(c) & 0x0FU]);
+                break;
+            }
             buffer.put(c);
             break;
         }
-- 
2.43.0


From 525e528047e308a2443bde6aec7f2629eb0b964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:44 +0000
Subject: [PATCH 47/80] fix: Json: refuse multi-dimensional arrays with fewer
 elements than their dimensions require

---
 src/serialiser/include/IoSerialiserJson.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/serialiser/include/IoSerialiserJson.hpp b/src/serialiser/include/IoSerialiserJson.hpp
index 7f2d8c1..6f29387 100644
--- a/src/serialiser/include/IoSerialiserJson.hpp
+++ b/src/serialiser/include/IoSerialiserJson.hpp
@@ -566,6 +566,20 @@ struct IoSerialiser<Json, T> {
         }
         std::array<int32_t, T::n_dims_> dimWire;
         IoSerialiser<Json, std::array<int32_t, T::n_dims_>>::deserialise(buffer, fieldHeader, dimWire);
+        FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
+        if (fieldHeader.intDataType != IoSerialiser<Json, std::vector<V>>::getDataTypeId() || fieldHeader.fieldName != "values"sv) {
+            throw ProtocolException("expected multi-array values");
+        }
+        std::vector<V> elements;
+        IoSerialiser<Json, std::vector<V>>::deserialise(buffer, fieldHeader, elements);
+        uint64_t nElements = 1U;
+        for (const auto dimension : dimWire) {
+            nElements = std::min(nElements * static_cast<uint32_t>(dimension), uint64_t{ 1 } << 32U);
+        }
+        if (nElements > elements.size()) {
+            throw ProtocolException("dimensions of field {} exceed the number of its elements", field.fieldName);
+        }
+        value.elements() = std::move(elements);
         for (auto i = 0U; i < T::n_dims_; i++) {
             value.dimensions()[i] = static_cast<T::size_t_>(dimWire[i]);
         }
@@ -578,11 +592,6 @@ struct IoSerialiser<Json, T> {
             value.offset(i - 1) = 0;
         }
         FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
-        if (fieldHeader.intDataType != IoSerialiser<Json, std::vector<V>>::getDataTypeId() || fieldHeader.fieldName != "values"sv) {
-            throw ProtocolException("expected multi-array values");
-        }
-        IoSerialiser<Json, std::vector<V>>::deserialise(buffer, fieldHeader, value.elements());
-        FieldHeaderReader<Json>::get<ProtocolCheck::ALWAYS>(buffer, info, fieldHeader);
         if (fieldHeader.intDataType != IoSerialiser<Json, END_MARKER>::getDataTypeId()) {
             throw ProtocolException("expected end marker");
         }
-- 
2.43.0


From 9420abcf72642e18d2cc41954eb0e6f140b8f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 48/80] fix: getMinimumSequence must not re-read the slowest
 consumer's sequence

If that consumer advanced between the comparison and the second read, the result
exceeded the position of another consumer, and the producer overwrote entries
that one had not read yet.
---
 src/disruptor/include/disruptor/Sequence.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/disruptor/include/disruptor/Sequence.hpp b/src/disruptor/include/disruptor/Sequence.hpp
index f5eb3fa..a5a5bb8 100644
--- a/src/disruptor/include/disruptor/Sequence.hpp
+++ b/src/disruptor/include/disruptor/Sequence.hpp
@@ -59,21 +59,11 @@ namespace detail {
  * \returns the minimum sequence found or lon.MaxValue if the array is empty.
  */
 inline std::int64_t getMinimumSequence(const std::vector<std::shared_ptr<Sequence>> &sequences, std::int64_t minimum = std::numeric_limits<std::int64_t>::max()) noexcept {
-    if (sequences.empty()) {
-        return minimum;
+    // N.B. each sequence is read only once: the slowest consumer found may already have overtaken another one if its value is read again
+    for (const auto &sequence : sequences) {
+        minimum = std::min(minimum, sequence->value());
     }
-#if not defined(_LIBCPP_VERSION)
-    return std::min(minimum, std::ranges::min(sequences, std::less{}, [](const auto &sequence) noexcept { return sequence->value(); })->value());
-#else
-    std::vector<int64_t> v;
-    v.reserve(sequences.size());
-    for (auto &sequence : sequences) {
-        v.push_back(sequence->value());
-    }
-    // std::for_each(sequences.begin(), sequences.end(), [v](const auto &sequence) noexcept { v.push_back(8); });
-    auto min = std::min_element(v.begin(), v.end());
-    return (*min < minimum) ? *min : minimum;
-#endif
+    return minimum;
 }
 
 inline void addSequences(std::shared_ptr<std::vector<std::shared_ptr<Sequence>>> &sequences, const Sequence &cursor, const std::vector<std::shared_ptr<Sequence>> &sequencesToAdd) {
-- 
2.43.0


From 11d117986e7a110817a500f967dc65abdebdfd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 49/80] fix: SingleThreadedStrategy::next must not publish
 entries that are only claimed

When the cached gating sequence was out of date, next() moved the cursor to the last claimed
sequence, so that consumers could read entries that had not been written or published yet.
---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index bffe15f..8bea5f9 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -57,8 +57,6 @@ public:
         auto wrapPoint    = nextSequence - static_cast<std::int64_t>(SIZE);
 
         if (const auto cachedGatingSequence = _cachedValue; wrapPoint > cachedGatingSequence || cachedGatingSequence > _nextValue) {
-            _cursor.setValue(_nextValue);
-
             SpinWait     spinWait;
             std::int64_t minSequence;
             while (wrapPoint > (minSequence = detail::getMinimumSequence(dependents, _nextValue))) {
-- 
2.43.0


From d8a408298e9bcfbd6ba796bc75e47f14fbb249ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 50/80] fix: MultiThreadedStrategy's availability flags must be
 atomic

They are what hands an entry over from the publisher to the consumers, but were plain
integers: a data race, with no guarantee that the entry's data is visible.
---
 src/disruptor/include/disruptor/ClaimStrategy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disruptor/include/disruptor/ClaimStrategy.hpp b/src/disruptor/include/disruptor/ClaimStrategy.hpp
index 8bea5f9..52d871a 100644
--- a/src/disruptor/include/disruptor/ClaimStrategy.hpp
+++ b/src/disruptor/include/disruptor/ClaimStrategy.hpp
@@ -114,7 +114,7 @@ template<std::size_t SIZE, WaitStrategy WAIT_STRATEGY>
 class MultiThreadedStrategy {
     alignas(kCacheLine) Sequence &_cursor;
     alignas(kCacheLine) WAIT_STRATEGY &_waitStrategy;
-    alignas(kCacheLine) std::array<std::int32_t, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
+    alignas(kCacheLine) std::array<std::atomic<std::int32_t>, SIZE> _availableBuffer; // tracks the state of each ringbuffer slot
     alignas(kCacheLine) std::shared_ptr<Sequence> _gatingSequenceCache = std::make_shared<Sequence>();
     static constexpr std::int32_t _indexMask                           = SIZE - 1;
     static constexpr std::int32_t _indexShift                          = ceillog2(SIZE);
@@ -216,7 +216,7 @@ public:
         const auto index = calculateIndex(sequence);
         const auto flag  = calculateAvailabilityFlag(sequence);
 
-        return _availableBuffer[static_cast<std::size_t>(index)] == flag;
+        return _availableBuffer[static_cast<std::size_t>(index)].load(std::memory_order_acquire) == flag;
     }
 
     [[nodiscard]] OPENCMW_FORCEINLINE std::int64_t getHighestPublishedSequence(const std::int64_t lowerBound, const std::int64_t availableSequence) const noexcept {
@@ -231,7 +231,7 @@ public:
 
 private:
     void                              setAvailable(std::int64_t sequence) noexcept { setAvailableBufferValue(calculateIndex(sequence), calculateAvailabilityFlag(sequence)); }
-    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index] = flag; }
+    OPENCMW_FORCEINLINE void          setAvailableBufferValue(std::size_t index, std::int32_t flag) noexcept { _availableBuffer[index].store(flag, std::memory_order_release); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::int32_t calculateAvailabilityFlag(const std::int64_t sequence) const noexcept { return static_cast<std::int32_t>(static_cast<std::uint64_t>(sequence) >> _indexShift); }
     [[nodiscard]] OPENCMW_FORCEINLINE std::size_t calculateIndex(const std::int64_t sequence) const noexcept { return static_cast<std::size_t>(static_cast<std::int32_t>(sequence) & _indexMask); }
 };
-- 
2.43.0


From 108b6f442cada76018173506b4ed678cd3ce351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 51/80] fix: the alert flag of a barrier is set and read by
 different threads

---
 src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
index e6ab764..55cf655 100644
--- a/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
+++ b/src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp
@@ -24,7 +24,7 @@ class ProcessingSequenceBarrier : public ISequenceBarrier, public std::enable_sh
     WAIT_STRATEGY                                          &_waitStrategyRef;
     EventStore<T>                                          &_sequenceProviderRef;
 
-    bool                                                    _alerted = false;
+    std::atomic<bool>                                       _alerted = false;
 
 public:
     ProcessingSequenceBarrier(const std::shared_ptr<EventStore<T>> &sequenceProvider,
-- 
2.43.0


From 16e12298c0932193ff75d793aaca6fd1114363ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:31 +0000
Subject: [PATCH 52/80] fix: BatchEventProcessor must not dereference a missing
 exception handler

None is set by default, so that any exception of an event handler crashed the processor.
---
 src/disruptor/include/disruptor/BatchEventProcessor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/BatchEventProcessor.hpp b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
index b857e96..f546abb 100644
--- a/src/disruptor/include/disruptor/BatchEventProcessor.hpp
+++ b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
@@ -131,7 +131,8 @@ public:
                     break;
                 }
             } catch (const std::exception &ex) {
-                _exceptionHandler->handleEventException(ex, nextSequence, *evt);
+                if (_exceptionHandler)
+                    _exceptionHandler->handleEventException(ex, nextSequence, *evt);
                 _sequenceRef.setValue(nextSequence);
                 nextSequence++;
             }
-- 
2.43.0


From 0f623eb31a91dad1b12817daebbe6b1999f41bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:31 +0000
Subject: [PATCH 53/80] fix: BatchEventProcessor must not miss a halt() during
 its start

run() clears the alert after it has marked the processor as running: a halt() in between
was lost and the processor waited for ever.
---
 src/disruptor/include/disruptor/BatchEventProcessor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/BatchEventProcessor.hpp b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
index f546abb..78fa86c 100644
--- a/src/disruptor/include/disruptor/BatchEventProcessor.hpp
+++ b/src/disruptor/include/disruptor/BatchEventProcessor.hpp
@@ -113,7 +113,7 @@ public:
 
         T   *evt          = nullptr;
 
-        while (true) {
+        while (_running) { // N.B. false if halt() was called before the alert was cleared above
             try {
                 auto availableSequence = _sequenceBarrierRef.waitFor(nextSequence);
 
-- 
2.43.0


From 9a8af54b82d57971f58fbad7e3098f5ddf1b09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:31 +0000
Subject: [PATCH 54/80] fix: WorkProcessor must not miss a halt() during its
 start

run() clears the alert after it has marked the processor as running: a halt() in between
was lost and the processor waited for ever.
---
 src/disruptor/include/disruptor/WorkProcessor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/disruptor/WorkProcessor.hpp b/src/disruptor/include/disruptor/WorkProcessor.hpp
index 0ae3a70..b64c797 100644
--- a/src/disruptor/include/disruptor/WorkProcessor.hpp
+++ b/src/disruptor/include/disruptor/WorkProcessor.hpp
@@ -121,7 +121,7 @@ public:
 
         T   *eventRef                = nullptr;
 
-        while (true) {
+        while (_running == 1) { // N.B. 0 if halt() was called before the alert was cleared above
             try {
                 if (processedSequence) {
                     processedSequence = false;
-- 
2.43.0


From b3a897d946dbd91ff85de45c8570c8995bae900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:16 +0000
Subject: [PATCH 55/80] fix: parseNumber leaves the number alone when the text
 is not a number as a whole

from_chars stores the leading digits of a text like '5x' before the rest is
found to be no number. A query parameter that does not parse was supposed to
be ignored, but overwrote the field with the leading digits.
---
 src/core/include/opencmw.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/include/opencmw.hpp b/src/core/include/opencmw.hpp
index 6fbea11..d65140c 100644
--- a/src/core/include/opencmw.hpp
+++ b/src/core/include/opencmw.hpp
@@ -779,8 +779,10 @@ inline constexpr void diffView(std::ostream &os, const T &lhs, const T &rhs) {
 
 template<typename T>
 static std::errc parseNumber(std::string_view str, T &number) {
-    const auto rc = std::from_chars(str.data(), str.data() + str.size(), number);
+    T          parsed{};
+    const auto rc = std::from_chars(str.data(), str.data() + str.size(), parsed);
     if (rc.ptr == str.data() + str.size() && rc.ec == std::errc{}) {
+        number = parsed;
         return std::errc{};
     }
     return rc.ec == std::errc{} ? std::errc::invalid_argument : rc.ec;
-- 
2.43.0


From a72ca5bf42c32d9ddb821d75650a499aeb1ecff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:40 +0000
Subject: [PATCH 56/80] fix: a DNS query for a signal unit returns only signals
 of that unit

QueryEntry ignored signal_unit.
---
 src/services/include/services/dns_types.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 0eb191c..8ac23f3 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -32,9 +32,10 @@ struct QueryEntry : Entry {
                         check_string(service_name)
                                 check_string(service_type)
                                         check_string(signal_name)
-                                                check_string(signal_type)
+                                                check_string(signal_unit)
+                                                        check_string(signal_type)
 #undef check_string
-                                                        if (port != -1 && port != entry.port) return false;
+                                                                if (port != -1 && port != entry.port) return false;
         if (!std::isnan(signal_rate) && signal_rate != entry.signal_rate) return false;
 
         return true;
-- 
2.43.0


From fa1ac32b18cfb9a913a4c04efccb09cffe1ffca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:40 +0000
Subject: [PATCH 57/80] fix: renewing a DNS entry without signal rate does not
 register it twice

The rate defaults to NaN, so that the entry was not even equal to itself.
---
 src/services/include/services/dns_types.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index 8ac23f3..f38e8aa 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -1,6 +1,7 @@
 #ifndef DNS_TYPES_HPP
 #define DNS_TYPES_HPP
 
+#include <cmath>
 #include <MIME.hpp>
 #include <opencmw.hpp>
 
@@ -18,7 +19,11 @@ struct Entry {
     float       signal_rate{ std::numeric_limits<float>::quiet_NaN() };
     std::string signal_type;
 
-    bool        operator==(const Entry &b) const = default;
+    bool        operator==(const Entry &b) const {
+        return protocol == b.protocol && hostname == b.hostname && port == b.port && service_name == b.service_name && service_type == b.service_type
+            && signal_name == b.signal_name && signal_unit == b.signal_unit && signal_type == b.signal_type
+            && (signal_rate == b.signal_rate || (std::isnan(signal_rate) && std::isnan(b.signal_rate))); // NaN: rate not given
+    }
 };
 
 struct QueryEntry : Entry {
-- 
2.43.0


From 4e77ddf7b4bc899e339619798186a8793a06b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:40 +0000
Subject: [PATCH 58/80] fix: refuse a DNS entry list with columns of different
 length

The list comes from a client: a malformed one aborted the service, or (with
NDEBUG) made it read beyond the columns.
---
 src/services/include/services/dns_types.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/services/include/services/dns_types.hpp b/src/services/include/services/dns_types.hpp
index f38e8aa..4e06de0 100644
--- a/src/services/include/services/dns_types.hpp
+++ b/src/services/include/services/dns_types.hpp
@@ -4,6 +4,7 @@
 #include <cmath>
 #include <MIME.hpp>
 #include <opencmw.hpp>
+#include <stdexcept>
 
 namespace opencmw::service::dns {
 
@@ -86,14 +87,16 @@ struct FlatEntryList {
     template<typename EntryType = Entry>
     [[nodiscard]] std::vector<EntryType> toEntries() const {
         const std::size_t size = protocol.size();
-        assert(hostname.size() == size
-                && port.size() == size
-                && service_name.size() == size
-                && service_type.size() == size
-                && signal_name.size() == size
-                && signal_unit.size() == size
-                && signal_rate.size() == size
-                && signal_type.size() == size);
+        if (hostname.size() != size
+                || port.size() != size
+                || service_name.size() != size
+                || service_type.size() != size
+                || signal_name.size() != size
+                || signal_unit.size() != size
+                || signal_rate.size() != size
+                || signal_type.size() != size) {
+            throw std::invalid_argument("FlatEntryList: columns of different length");
+        }
 
         std::vector<EntryType> res;
         res.reserve(size);
-- 
2.43.0


From 63004064242d5162d19922d770b2a0fda7b45edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:40 +0000
Subject: [PATCH 59/80] fix: expired DNS entries are neither saved nor reported
 as deleted

A saved entry gets a new time to live when it is loaded: expired entries, and
the stale duplicates of renewed ones, came back to life on a restart.
---
 src/services/include/services/dns_storage.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/services/include/services/dns_storage.hpp b/src/services/include/services/dns_storage.hpp
index 8fd0e91..b2773b9 100644
--- a/src/services/include/services/dns_storage.hpp
+++ b/src/services/include/services/dns_storage.hpp
@@ -73,10 +73,13 @@ public:
     template<class ReturnEntryType = EntryType, class FilterT = FilterType>
     std::vector<ReturnEntryType> deleteEntries(const FilterT &filter = {}) {
         std::vector<ReturnEntryType> deletedEntries;
+        auto                         now = StorageEntryType::clock::now();
         std::erase_if(_entries,
-                [&filter, &deletedEntries](const StorageEntryType &entry) {
+                [&filter, &deletedEntries, &now](const StorageEntryType &entry) {
                     if (filter == entry) {
-                        deletedEntries.push_back(entry);
+                        if (entry.ttl > now) {
+                            deletedEntries.push_back(entry);
+                        }
                         return true; // Remove the entry
                     }
                     return false; // Keep the entry
@@ -142,7 +145,8 @@ bool DataStorage<EntryType, FilterType, SerialiseType>::loadDataFromFile(const c
 template<class EntryType, class FilterType, class SerialiseType>
 bool DataStorage<EntryType, FilterType, SerialiseType>::saveDataToFile(const char *filepath) {
     std::vector<EntryType> entries;
-    std::for_each(_entries.begin(), _entries.end(), [&entries](auto &e) { entries.push_back({ e }); });
+    auto                   now = StorageEntryType::clock::now();
+    std::for_each(_entries.begin(), _entries.end(), [&entries, &now](auto &e) { if (e.ttl > now) entries.push_back({ e }); });
     SerialiseType k{ entries };
     IoBuffer      outBuffer;
     opencmw::serialise<opencmw::YaS>(outBuffer, k);
-- 
2.43.0


From 69c5b355ccaf85affdbb9a2af62a3cf523706b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:47 +0000
Subject: [PATCH 60/80] fix: MultiArray::indices() is the inverse of index()
 for layouts with offsets

index() scales the offset of a dimension with its stride, indices() did not.
---
 src/serialiser/include/MultiArray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serialiser/include/MultiArray.hpp b/src/serialiser/include/MultiArray.hpp
index 7984381..da5601d 100644
--- a/src/serialiser/include/MultiArray.hpp
+++ b/src/serialiser/include/MultiArray.hpp
@@ -157,9 +157,9 @@ public:
         std::array<size_t_, n_dims> indices{};
         size_t_                     index_ = index;
         for (size_t_ i = 0; i < n_dims; i++) {
-            index_ -= offsets_[i];
-            indices[i] = index_ / strides_[i];
-            index_ -= indices[i] * strides_[i];
+            const size_t_ position = index_ / strides_[i];
+            indices[i]             = position - offsets_[i];
+            index_ -= position * strides_[i];
         }
         return indices;
     }
-- 
2.43.0


From 218d39754c70413b6eb971822d3ac92d1a270901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:47 +0000
Subject: [PATCH 61/80] fix: adding to a MultiArray with a custom layout keeps
 the layout

The sum was written into a new array of the default layout, whose elements may
be fewer than those of the operand: the addition wrote beyond its end.
---
 src/serialiser/include/MultiArray.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/serialiser/include/MultiArray.hpp b/src/serialiser/include/MultiArray.hpp
index da5601d..6f43b61 100644
--- a/src/serialiser/include/MultiArray.hpp
+++ b/src/serialiser/include/MultiArray.hpp
@@ -242,18 +242,14 @@ public:
 
     MultiArray<value_type, n_dims> operator+(const MultiArray<value_type, n_dims> &operand) const {
         // todo: verify dimension match. Allow broadcasting (adding a column vector to each row or similar)?
-        MultiArray result = MultiArray<value_type, n_dims>(this->dims_);
-        for (size_t_ i = 0; i < n_element_; ++i) { // todo: use iterator to only change valid fields
-            result[i] = operator[](i) + operand[i];
-        }
+        MultiArray result = *this;
+        result += operand;
         return result;
     }
     template<AnyNumber R>
     MultiArray operator+(const R &operand) const {
-        MultiArray result = MultiArray<value_type, n_dims>(this->dims_);
-        for (size_t_ i = 0; i < n_element_; ++i) { // todo: use iterator to only change valid fields
-            result[i] = elements_[i] + operand;
-        }
+        MultiArray result = *this;
+        result += operand;
         return result;
     }
 
-- 
2.43.0


From ae2de166f91fa70b0b7d9e7c52d9737b60fdbc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:28 +0000
Subject: [PATCH 62/80] fix: the real-time thread sees the setting it has
 replaced

realtimeReplace() did not update the real-time thread's own copy: its next
access returned the value before the replacement, and published it again.
---
 src/disruptor/include/BasicSetting.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index 5acc64c..fbb7670 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -283,11 +283,8 @@ public:
 
     template<typename... Args>
     void realtimeReplace(Args &&...args) {
-        T    obj(std::forward<Args>(args)...);
-
-        auto idx  = acquireIndex();
-        data[idx] = std::move(obj);
-        releaseIndex(idx);
+        realtimeCopy = T(std::forward<Args>(args)...);
+        realtimeRelease();
     }
 
     const T &nonRealtimeAcquire() {
-- 
2.43.0


From 3d7823558bfb108d9cc50ae2e50baf133031c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:28 +0000
Subject: [PATCH 63/80] fix: BasicSetting::ScopedAccess::get() returns the
 value, not the pointer to it

It did not compile when used.
---
 src/disruptor/include/BasicSetting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index fbb7670..fda90b3 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -145,13 +145,13 @@ public:
 
         // read-only access
         constexpr          operator const SettingType &() const noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
-        constexpr const T &get() const noexcept { return _currentValue; }
+        constexpr const T &get() const noexcept { return *_currentValue; }
         constexpr const T *operator->() const noexcept { return _currentValue; }
 
         // read-write access
         constexpr operator SettingType &() noexcept { return *_currentValue; } // NOSONAR - implicit conversion intended
         template<bool b = true>
-        requires enableMutableAccess T &get() noexcept { return _currentValue; }
+        requires enableMutableAccess T &get() noexcept { return *_currentValue; }
         template<bool b = true>
         requires enableMutableAccess T &operator=(const T &newVal) {
             *_currentValue = newVal;
-- 
2.43.0


From 0b5df5baf9342b7fe47ed7750be03c691654477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:28 +0000
Subject: [PATCH 64/80] fix: a real-time mutable setting waits for the
 real-time thread before it goes away

BUSY_BIT is 2, the comparison with 1 never held.
---
 src/disruptor/include/BasicSetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/BasicSetting.hpp b/src/disruptor/include/BasicSetting.hpp
index fda90b3..699650a 100644
--- a/src/disruptor/include/BasicSetting.hpp
+++ b/src/disruptor/include/BasicSetting.hpp
@@ -260,7 +260,7 @@ public:
 
     ~RealtimeMutable() { // NOSONAR - intended behaviour, implements access guard
         assert("delete while in-use by real-time thread" && (control.load() & BUSY_BIT) == 0);
-        while ((control.load() & BUSY_BIT) == 1)
+        while ((control.load() & BUSY_BIT) != 0)
             ;
 
         auto acquired = nonRealtimeLock.try_lock(); // NOSONAR(cpp:S5506) -- RAII idiom implemented in BasicSetting::ScopedAccess
-- 
2.43.0


From 832dae8d7137239b35350f63a185ada0ab0f30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 65/80] fix: CtxSetting::get() returns the setting, not a
 reference to it

The reference pointed to a temporary if there was no setting for the context,
and otherwise into the history, which later commits overwrite.
---
 src/disruptor/include/Transactions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 607d586..5b81b1c 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -47,7 +47,7 @@ struct TransactionResult {
 template<typename T>
 struct CtxResult {
     const TimingCtx           timingCtx;
-    const settings::node<T>  &settingValue;
+    const settings::node<T>   settingValue; // shares the value with the setting it has been read from
 
     explicit(false) constexpr operator TimingCtx const &() const noexcept { return timingCtx; }
     explicit(false) constexpr operator T const &() const noexcept { return settingValue; }
-- 
2.43.0


From 547cb936974c692fb218e978ba71559a203eae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 66/80] fix: CtxSetting::retireExpired() keeps all settings if
 the time-out is disabled

With the default time-out of -1 it removed every setting.
---
 src/disruptor/include/Transactions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 5b81b1c..b44288e 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -408,7 +408,9 @@ public:
     void                                        retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
         _setting.historyLock().template scopedGuard<ReaderWriterLockType::WRITE>();
         _setting.retireExpired(now);
-        retireOldSettings(*_setting.get().value, now);
+        if constexpr (timeOut > 0) {
+            retireOldSettings(*_setting.get().value, now);
+        }
     }
     template<bool exactMatch = false>
     [[maybe_unused]] bool retire(const TimingCtx &ctx, const TimeStamp &now = std::chrono::system_clock::now()) {
-- 
2.43.0


From a851fbb64ea36508443fba5cd0403c5374d9d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 67/80] fix: a setting in use does not expire because later
 ones have

An expired setting behind one in use moved the tail of the history over the
latter, which thereby was no longer found.
---
 src/disruptor/include/Transactions.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index b44288e..1bf3f9d 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -301,12 +301,8 @@ public:
         // expire old settings based on time
         if constexpr (timeOut > 0) {
             auto tailPosition = _sequenceTail->value();
-            while (tailPosition != _sequenceHead->value()) {
-                if ((*_ringBuffer)[tailPosition].lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
-                    tailPosition = _sequenceTail->incrementAndGet();
-                } else {
-                    tailPosition++;
-                }
+            while (tailPosition != _sequenceHead->value() && (*_ringBuffer)[tailPosition].lastAccess - now + TimeDiff{ timeOut } < TimeDiff{ 0 }) {
+                tailPosition = _sequenceTail->incrementAndGet();
             }
         }
     }
-- 
2.43.0


From 172ba08c709ccd6e0637f273b96ee170b18f7ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 68/80] fix: committing an expired transaction does not use
 freed memory

The commit retired expired transactions while it was iterating over the list
of transactions.
---
 src/disruptor/include/Transactions.hpp | 37 +++++++++-----------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index 1bf3f9d..fcfb051 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -159,36 +159,23 @@ public:
     }
 
     TransactionResult commit(const TransactionToken &transactionToken, const TimeStamp &now = std::chrono::system_clock::now()) {
-        bool expected  = false;
-        bool submitted = false;
+        std::list<std::pair<TransactionToken, settings::node<T>>> staged; // N.B. commit(..) also retires expired transactions -> must not be called while holding the lock
+        bool expected = false;
         while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
             ;
-
-#if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
-        const auto [first, last] = std::ranges::remove_if(_transactionList, [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
+        for (auto it = _transactionList.begin(); it != _transactionList.end();) {
+            const auto transaction = it++;
+            if (transactionToken == NullToken<TransactionToken> || transaction->first == transactionToken) {
+                staged.splice(staged.end(), _transactionList, transaction);
             }
-            return false;
-        });
-#else
-        const auto first = std::remove_if(_transactionList.begin(), _transactionList.end(), [&transactionToken, &submitted, this, &now](const auto &setting) {
-            if (transactionToken == NullToken<TransactionToken> || setting.first == transactionToken) {
-                commit(std::move(*setting.second.value), now);
-                submitted = true;
-                return true;
-            }
-            return false;
-        });
-        const auto last  = _transactionList.end();
-#endif
-
-        _transactionList.erase(first, last);
+        }
         std::atomic_store_explicit(&_transactionListLock, false, std::memory_order_release);
 
-        return { submitted, now };
+        for (auto &setting : staged) {
+            commit(std::move(*setting.second.value), now);
+        }
+
+        return { !staged.empty(), now };
     }
 
     template<class Fn>
-- 
2.43.0


From 575e8e46cd9284e470167bb50b71a4da8f892a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:46 +0000
Subject: [PATCH 69/80] fix: the lock of the transaction list locks

The loop ended once the exchange failed, i.e. when another thread held the lock.
---
 src/disruptor/include/Transactions.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index fcfb051..ab420af 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -136,8 +136,7 @@ public:
             return { isCommitted, now };
         }
 
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+        while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
             ;
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
         if (auto it = std::ranges::find_if(_transactionList, [&transactionToken](const auto &pair) { return pair.first == transactionToken; }); it != _transactionList.end()) {
@@ -160,8 +159,7 @@ public:
 
     TransactionResult commit(const TransactionToken &transactionToken, const TimeStamp &now = std::chrono::system_clock::now()) {
         std::list<std::pair<TransactionToken, settings::node<T>>> staged; // N.B. commit(..) also retires expired transactions -> must not be called while holding the lock
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+        while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
             ;
         for (auto it = _transactionList.begin(); it != _transactionList.end();) {
             const auto transaction = it++;
@@ -195,8 +193,7 @@ public:
 
     std::vector<TransactionToken> getPendingTransactions() const {
         std::vector<TransactionToken> result;
-        bool                          expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+        while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
             ;
         result.reserve(_transactionList.size());
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
@@ -236,8 +233,7 @@ public:
 
     bool retireStaged(const TransactionToken &transactionToken = NullToken<TransactionToken>) {
         bool retired  = false;
-        bool expected = false;
-        while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+        while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
             ;
 
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
@@ -267,8 +263,7 @@ public:
     void retireExpired(const TimeStamp &now = std::chrono::system_clock::now()) {
         if (timeOutTransactions > 0) {
             // time-out old transactions
-            bool expected = false;
-            while (std::atomic_compare_exchange_strong(&_transactionListLock, &expected, true)) // spin-lock
+            while (_transactionListLock.exchange(true, std::memory_order_acquire)) // spin-lock
                 ;
 #if not defined(__EMSCRIPTEN__) and (not defined(__clang__) or (__clang_major__ >= 16))
             const auto [first, last] = std::ranges::remove_if(_transactionList, [&now, this](const auto &setting) { return setting.second.lastAccess - now + TimeDiff{ timeOutTransactions } < TimeDiff{ 0 }; });
-- 
2.43.0


From d986e6cea1e5dcb4a05e1c9d71eb09de4a44faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:46 +0000
Subject: [PATCH 70/80] fix: SettingBase::nHistory() holds the history lock

The guard was a temporary, and released before the history was looked at.
---
 src/disruptor/include/Transactions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disruptor/include/Transactions.hpp b/src/disruptor/include/Transactions.hpp
index ab420af..0dca84c 100644
--- a/src/disruptor/include/Transactions.hpp
+++ b/src/disruptor/include/Transactions.hpp
@@ -117,7 +117,7 @@ public:
         _ringBuffer->addGatingSequences(std::vector{ _sequenceHead, _sequenceTail });
     }
     [[nodiscard]] std::size_t nHistory() const noexcept {
-        _historyLock.scopedGuard<ReaderWriterLockType::READ>();
+        auto guard = _historyLock.scopedGuard<ReaderWriterLockType::READ>();
         return static_cast<std::size_t>(_sequenceHead->value() - _sequenceTail->value() + 1);
     }
     ReaderWriterLock &historyLock() noexcept { return _historyLock; }
-- 
2.43.0


From 2848767c1d214d8c1ae260b65e217aa4241be32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:10 +0000
Subject: [PATCH 71/80] fix: a one-character MessageFrame releases its array
 with delete[]

---
 src/zmq/include/zmq/ZmqUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index d50571b..0f4e8e2 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -236,7 +236,7 @@ public:
         zmq_msg_init_data(
                 &_message, copy, 1,
                 [](void * /*unused*/, void *bufOwned) {
-                    delete static_cast<char *>(bufOwned);
+                    delete[] static_cast<char *>(bufOwned);
                 },
                 copy);
     }
-- 
2.43.0


From 6fbab50f9760e511796de8b74b81d6050470a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:10 +0000
Subject: [PATCH 72/80] fix: a message with a malformed topic is refused, it
 does not throw out of receive()

---
 src/zmq/include/zmq/ZmqUtils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zmq/include/zmq/ZmqUtils.hpp b/src/zmq/include/zmq/ZmqUtils.hpp
index 0f4e8e2..3a91dcc 100644
--- a/src/zmq/include/zmq/ZmqUtils.hpp
+++ b/src/zmq/include/zmq/ZmqUtils.hpp
@@ -442,7 +442,11 @@ template<mdp::MessageFormat Format>
     msg.command         = static_cast<mdp::Command>(commandStr[0]);
     msg.serviceName     = std::string(zmsg.frame(ZmqMessage<Format>::Frame::ServiceName).data());
     msg.clientRequestID = IoBuffer(clientRequestId.data(), clientRequestId.size());
-    msg.topic           = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    try {
+        msg.topic = mdp::Message::URI(std::string(zmsg.frame(ZmqMessage<Format>::Frame::Topic).data()));
+    } catch (const std::exception &) {
+        return {}; // malformed topic
+    }
     msg.data            = IoBuffer(data.data(), data.size());
     msg.error           = std::string(zmsg.frame(ZmqMessage<Format>::Frame::Error).data());
     msg.rbac            = IoBuffer(rbac.data(), rbac.size());
-- 
2.43.0


From c9e15496028197b88b26edcf790b598a63393e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:15 +0000
Subject: [PATCH 73/80] fix: a client's subscription is counted once, and only
 its own is cancelled

---
 src/majordomo/include/majordomo/Broker.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index c0c9e73..2e2a307 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -688,9 +688,10 @@ private:
                     return false;
                 }
 
-                subscribe(*subscription);
                 auto [it, inserted] = _subscribedClientsByTopic.try_emplace(*subscription);
-                it->second.emplace(message.sourceId);
+                if (it->second.emplace(message.sourceId).second) { // count each client once
+                    subscribe(*subscription);
+                }
                 return true;
             }
             case mdp::Command::Unsubscribe: {
@@ -702,10 +703,11 @@ private:
                     return false;
                 }
 
-                unsubscribe(*subscription);
                 auto it = _subscribedClientsByTopic.find(*subscription);
                 if (it != _subscribedClientsByTopic.end()) {
-                    it->second.erase(message.sourceId);
+                    if (it->second.erase(message.sourceId) > 0) {
+                        unsubscribe(*subscription);
+                    }
                     if (it->second.empty()) {
                         _subscribedClientsByTopic.erase(it);
                     }
-- 
2.43.0


From 207dbcf5c9e736956f2b5176dc56cdf84bf4f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:15 +0000
Subject: [PATCH 74/80] fix: the broker forwards only GET and SET of a client
 to the workers

---
 src/majordomo/include/majordomo/Broker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 2e2a307..84c4aa0 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -716,9 +716,12 @@ private:
             }
             case mdp::Command::Heartbeat:
                 sendDnsHeartbeats(true);
+                return true;
+            case mdp::Command::Get:
+            case mdp::Command::Set:
                 break;
             default:
-                break;
+                return true; // not a request, must not reach the workers
             }
 
             auto [client, inserted] = _clients.try_emplace(message.sourceId, socket, message.sourceId, updatedClientExpiry());
-- 
2.43.0


From 8980ea4795f920de75348676f7d3c42652e8fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:15 +0000
Subject: [PATCH 75/80] fix: a request goes to the service with the longest
 matching name

---
 src/majordomo/include/majordomo/Broker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 84c4aa0..49d37c0 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -767,7 +767,7 @@ private:
             auto n  = removeSlash(name);
             auto sn = removeSlash(serviceName);
             if (!sn.starts_with(n)) continue;
-            if (!bestService || lessByLength(n, bestServiceName)) {
+            if (!bestService || lessByLength(bestServiceName, n)) {
                 bestServiceName = n;
                 bestService     = std::addressof(service);
             }
-- 
2.43.0


From 042993f126301c2adc52c8623d9e6467b4819a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:15 +0000
Subject: [PATCH 76/80] fix: a worker waits at most once, and only for a
 service it announced

---
 src/majordomo/include/majordomo/Broker.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 49d37c0..8de5048 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -830,7 +830,13 @@ private:
         // TODO
         // waiting.addLast(worker);
         auto service = _services.find(worker.serviceName);
-        service->second.waiting.push_back(&worker);
+        if (service == _services.end()) {
+            return; // the worker has not announced its service
+        }
+        auto &waiting = service->second.waiting;
+        if (std::ranges::find(waiting, &worker) == waiting.end()) {
+            waiting.push_back(&worker);
+        }
         worker.expiry = updatedWorkerExpiry();
         dispatch(service->second);
     }
-- 
2.43.0


From 351d3f48c7a3eb427c83f4e55e1a2bec82767229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:15 +0000
Subject: [PATCH 77/80] fix: a worker waits again after its final reply, also
 when the client has gone

---
 src/majordomo/include/majordomo/Broker.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 8de5048..719c30c 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -993,8 +993,12 @@ private:
         case mdp::Command::Partial:
         case mdp::Command::Final: {
             if (knownWorker) {
-                auto client = _clients.find(message.serviceName); // serviceName=clientSourceID
+                const bool isFinal = message.command == mdp::Command::Final;
+                auto       client  = _clients.find(message.serviceName); // serviceName=clientSourceID
                 if (client == _clients.end()) {
+                    if (isFinal) {
+                        workerWaiting(worker);
+                    }
                     return; // drop if client unknown/disappeared
                 }
 
@@ -1009,7 +1013,9 @@ private:
                     zmq::send(std::move(message), client->second.socket.value()).assertSuccess();
                 }
 
-                workerWaiting(worker);
+                if (isFinal) {
+                    workerWaiting(worker);
+                }
             } else {
                 disconnectWorker(worker);
             }
-- 
2.43.0


From 4c5d32bed7a116599c3c3e8d330e72b6e0cad45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:19 +0000
Subject: [PATCH 78/80] fix: a notification with a malformed topic does not end
 the worker

---
 src/majordomo/include/majordomo/Worker.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Worker.hpp b/src/majordomo/include/majordomo/Worker.hpp
index 8a7e757..a2b850a 100644
--- a/src/majordomo/include/majordomo/Worker.hpp
+++ b/src/majordomo/include/majordomo/Worker.hpp
@@ -279,7 +279,12 @@ private:
 
     bool receiveNotificationMessage() {
         if (auto message = zmq::receive<mdp::MessageFormat::WithoutSourceId>(_notifyListenerSocket)) {
-            const auto currentSubscription      = mdp::Topic::fromMdpTopic(message->topic);
+            mdp::Topic currentSubscription;
+            try {
+                currentSubscription = mdp::Topic::fromMdpTopic(message->topic);
+            } catch (...) {
+                return true; // malformed topic, ignore
+            }
 
             const auto matchesNotificationTopic = [this, &currentSubscription](const auto &activeSubscription) {
                 return _subscriptionMatcher(currentSubscription, activeSubscription);
-- 
2.43.0


From dded8d5dbe64ec9786a58c735ce152ca285ac33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:30 +0000
Subject: [PATCH 79/80] fix: a malformed name service query is answered, it
 does not end the broker

---
 src/majordomo/include/majordomo/Broker.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/majordomo/include/majordomo/Broker.hpp b/src/majordomo/include/majordomo/Broker.hpp
index 719c30c..4c41cdf 100644
--- a/src/majordomo/include/majordomo/Broker.hpp
+++ b/src/majordomo/include/majordomo/Broker.hpp
@@ -330,7 +330,11 @@ public:
                 auto                     segments = detail::split(body, ","sv);
                 std::vector<std::string> results(segments.size());
                 std::transform(segments.begin(), segments.end(), results.begin(), [this](const auto &v) {
-                    return detail::findDnsEntry(brokerName, _dnsCache, detail::trimmed(v));
+                    try {
+                        return detail::findDnsEntry(brokerName, _dnsCache, detail::trimmed(v));
+                    } catch (const std::exception &) { // not a URI
+                        return std::format("[{}: null]", detail::trimmed(v));
+                    }
                 });
 
                 reply = std::format("{}", opencmw::join(results, ","));
-- 
2.43.0


From 59d6e427414cb3a7e4bbd3766baa6438ae01ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:32 +0000
Subject: [PATCH 80/80] fix: copying an empty IoBuffer does not pass null
 pointers to memmove

---
 src/serialiser/include/IoBuffer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialiser/include/IoBuffer.hpp b/src/serialiser/include/IoBuffer.hpp
index 23ec1ec..54ddd40 100644
--- a/src/serialiser/include/IoBuffer.hpp
+++ b/src/serialiser/include/IoBuffer.hpp
@@ -247,7 +247,9 @@ public:
     [[nodiscard]] explicit IoBuffer(const char *data, const std::size_t size, Allocator allocator = Allocator(Reallocator::defaultReallocator()))
         : IoBuffer(size, allocator) {
         _buffer = resize(size);
-        std::memmove(_buffer, data, _size);
+        if (_size > 0) {
+            std::memmove(_buffer, data, _size);
+        }
     }
 
     [[nodiscard]] explicit IoBuffer(std::span<uint8_t> data, Allocator allocator = ThrowingAllocator::defaultNonOwning())
@@ -269,7 +271,9 @@ public:
     {
         _buffer   = resize(other._size);
         _position = other._position;
-        std::memmove(_buffer, other._buffer, _size * sizeof(uint8_t));
+        if (_size > 0) {
+            std::memmove(_buffer, other._buffer, _size * sizeof(uint8_t));
+        }
     }
 
     [[nodiscard]] IoBuffer(IoBuffer &&other) noexcept
-- 
2.43.0

