From d73db6b3e3685c2d38b487a2f571b4b68f4f8024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 001/101] fix: keep expired subscribers ordered in the
 publisher's set

The comparator locked the weak pointers, so the order of the set changed when
a subscriber expired: a later attach could insert a second entry (events
delivered twice) and a detach could miss its entry (events after detach).
---
 src/sys/sps_sys_sync.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sys/sps_sys_sync.hpp b/src/sys/sps_sys_sync.hpp
index 88ad2cf..4f951b8 100644
--- a/src/sys/sps_sys_sync.hpp
+++ b/src/sys/sps_sys_sync.hpp
@@ -93,10 +93,8 @@ template <class T>
 struct WeakPtrLessThan {
     bool operator()(const std::weak_ptr<T>& lhs,
                    const std::weak_ptr<T>& rhs) const {
-        auto lptr = lhs.lock(), rptr = rhs.lock();
-        if (!rptr) return false;  // nothing after expired pointer
-        if (!lptr) return true;   // every not expired after expired pointer
-        return lptr.get() < rptr.get();
+        // ordered by owner, so an expired subscriber keeps its place in the set
+        return lhs.owner_before(rhs);
     }
 };
 
-- 
2.43.0


From 485fee094b75c20606acd425f9f7fbdffb5506c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:18 +0000
Subject: [PATCH 002/101] fix: mask of 6-bit pieces when writing bits

masks[5] was 0x2f, so a piece of 6 bits lost its bit 4 when written.
---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 9ea0c9d..365424f 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -174,7 +174,7 @@ void BitContext::write_bits(uint64_t value, size_t n) {
         static uint32_t masks[]     =  {
                 0x01, 0x03,
                 0x07, 0x0f,
-                0x1f, 0x2f,
+                0x1f, 0x3f,
                 0x7f, 0xff
         };
 
-- 
2.43.0


From 0658d2232ceec1238e7e7890f4abf031148cdbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 003/101] fix: bit reader never reads outside of its buffer

Fields read past the end (a truncated or lying packet) touched memory behind
the buffer, and afterwards size() wrapped around so that acquire() succeeded.
Missing bits now read as 0 and nothing is left.
---
 src/io/sps_io_bits.cpp | 20 +++++++++++++++++---
 src/io/sps_io_bits.hpp |  2 ++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 365424f..9f00706 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -28,6 +28,8 @@ SOFTWARE.
 #include <sps_io_bits.hpp>
 #include <sps_log.hpp>
 
+#include <cstring>
+
 namespace sps {
 
 BitContext::BitContext(uint8_t *p, size_t sz) {
@@ -49,6 +51,10 @@ uint8_t* BitContext::pos() {
 }
 
 size_t BitContext::size_bits() {
+    // read past the end
+    if (buf_pos >= (int64_t) sz) {
+        return 0;
+    }
     return (sz - buf_pos - 1) * 8 + remain_bits;
 }
 
@@ -66,7 +72,11 @@ error_t BitContext::acquire_bits(size_t nbit) {
 
 void BitContext::read_bytes(uint8_t* c, size_t n) {
     assert(remain_bits == 0);
-    memcpy((char *) c, buf + buf_pos + 1, n);
+    size_t left = std::min(n, size());
+    if (left > 0) {
+        memcpy((char *) c, buf + buf_pos + 1, left);
+    }
+    memset((char *) c + left, 0, n - left);
     buf_pos += n;
 }
 
@@ -78,7 +88,7 @@ void BitContext::skip_read_bytes(size_t n) {
         return;
     }
 
-    remain_value = buf[buf_pos];
+    remain_value = value_at(buf_pos);
     remain_value <<= (8-remain_bits);
 }
 
@@ -205,11 +215,15 @@ void BitContext::write_int32(uint32_t value) {
     write_bits(value, 32);
 }
 
+uint8_t BitContext::value_at(int32_t p) {
+    return p >= 0 && p < (int64_t) sz ? buf[p] : 0;
+}
+
 void BitContext::next() {
     assert(remain_bits == 0);
     ++buf_pos;
     remain_bits  = 8;
-    remain_value = *(buf+buf_pos);
+    remain_value = value_at(buf_pos);
 }
 
 void BitContext::next_write() {
diff --git a/src/io/sps_io_bits.hpp b/src/io/sps_io_bits.hpp
index 1492f48..4a5c518 100644
--- a/src/io/sps_io_bits.hpp
+++ b/src/io/sps_io_bits.hpp
@@ -67,6 +67,8 @@ class BitContext {
     void     write_int32(uint32_t value);
 
  private:
+    // byte at p, 0 outside of the buffer
+    uint8_t value_at(int32_t p);
     void next();
     void next_write();
 
-- 
2.43.0


From 0e7cf75602e9f3629542a1e5511fed2719fdd8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 004/101] fix: reject flv tags too short for their own header

---
 src/avformat/sps_avformat_flvdec.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index b043f00..aafe0c8 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -133,6 +133,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
             stream_type, pkt_type, flags, previous_size, data_size);
 
     if (stream_type == AV_STREAM_TYPE_AUDIO) {
+        if (data_size < 2) {
+            sp_error("audio tag size %d is too short", data_size);
+            return ERROR_FLV_TAG;
+        }
+
         flags   = rd->read_int8();
         // channels    = flags & 0x01    // (0. SndMomo 1. SndStero)
         // sample_size = flags & 0x02    // (0. 8       1. 16)
@@ -147,6 +152,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         data_size   -=   2;
         pts         = dts;
     } else if (stream_type == AV_STREAM_TYPE_VIDEO) {
+        if (data_size < 1) {
+            sp_error("video tag size %d is too short", data_size);
+            return ERROR_FLV_TAG;
+        }
+
         flags       = rd->read_int8();
 
         // 1 keyframe 2. inner 3. h263 disposable 4.5. frame info or order frame
@@ -160,6 +170,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         --data_size;
 
         if (frame_type != 0x50) {
+            if (data_size < 4) {
+                sp_error("video tag size %d is too short", data_size);
+                return ERROR_FLV_TAG;
+            }
+
             // 0. avc sequence header 1. avc data 2. avc end data
             pkt_type = rd->read_int8();
 
-- 
2.43.0


From 211d67eacea86a89af9804f7a7a63a01bf9e8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:27 +0000
Subject: [PATCH 005/101] fix: http header names are case-insensitive

---
 src/io/url/sps_io_url.cpp           | 8 +++++---
 src/io/url/sps_io_url_http.cpp      | 4 +++-
 src/module/http/sps_http_parser.cpp | 6 ++++--
 src/module/http/sps_http_socket.cpp | 5 +++--
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index a597b66..59093ea 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -25,6 +25,8 @@ SOFTWARE.
 
 #include <http_parser.h>
 
+#include <strings.h>
+
 #include <sps_log.hpp>
 
 namespace sps {
@@ -168,14 +170,14 @@ const char * RequestUrl::get_ext() {
 
 std::string RequestUrl::get_header(const std::string& key) {
     for (auto& h : headers) {
-        if (h.key == key) return h.value;
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) return h.value;
     }
     return "";
 }
 
 void RequestUrl::erase_header(const std::string &key) {
     for (auto it = headers.begin(); it != headers.end(); ++it) {
-        if (it->key == key) {
+        if (strcasecmp(it->key.c_str(), key.c_str()) == 0) {
             headers.erase(it);
             return;
         }
@@ -190,7 +192,7 @@ std::string RequestUrl::get_param(const std::string& key) {
 }
 
 bool RequestUrl::is_chunked() {
-    return get_header("Transfer-Encoding") == "chunked";
+    return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
 int RequestUrl::get_content_length() {
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index daf8c23..6ae30f0 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -27,6 +27,8 @@ SOFTWARE.
 #include <sps_io_socket.hpp>
 #include <sps_log.hpp>
 
+#include <strings.h>
+
 #include <algorithm>
 #include <list>
 #include <memory>
@@ -44,7 +46,7 @@ std::string http_request(const std::string& method, const std::string& url,
 
     if (headers) {
         for (auto& h : *headers)
-            if (h.key != "Host")
+            if (strcasecmp(h.key.c_str(), "Host") != 0)
                 ss << h.key << ": " << h.value << CRCN;
     }
 
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index c062568..c1f4067 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -22,6 +22,8 @@ SOFTWARE.
 *****************************************************************************/
 
 #include <sps_http_parser.hpp>
+#include <strings.h>
+
 #include <log/sps_log.hpp>
 
 namespace sps {
@@ -53,7 +55,7 @@ const char* HttpParserContext::method() {
 
 bool HttpParserContext::contains(const std::string& key, std::string* value) {
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) {
             if (value) *value = h.value;
             return true;
         }
@@ -66,7 +68,7 @@ bool HttpParserContext::contains(const std::string& key,
     if (!vs) return contains(key, (std::string*) nullptr);
 
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) {
             (*vs).push_back(h.value);
         }
     }
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 17b37d8..75f0321 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_http_socket.hpp>
 
 #include <http_parser.h>
+#include <strings.h>
 
 #include <sstream>
 
@@ -188,11 +189,11 @@ error_t HttpResponseSocket::write_header() {
     }
 
     for (auto& h : headers) {
-        if (h.key == "Content-Length" && content_sent) {
+        if (strcasecmp(h.key.c_str(), "Content-Length") == 0 && content_sent) {
             continue;
         }
 
-        if (h.key == "Server") {
+        if (strcasecmp(h.key.c_str(), "Server") == 0) {
             has_server = true;
         }
         ss << h.key << ": " << h.value << CRCN;
-- 
2.43.0


From 63774cd2da75933bb6c8a4fefe2070c3ec511c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 006/101] fix: http content lengths do not fit an int

---
 src/io/url/sps_io_url.cpp                        | 4 ++--
 src/io/url/sps_io_url.hpp                        | 2 +-
 src/module/http/sps_http_parser.cpp              | 2 +-
 src/module/http/sps_http_parser.hpp              | 4 ++--
 src/module/http/sps_http_phase_handler.cpp       | 4 ++--
 src/module/http/sps_http_proxy_phase_handler.cpp | 8 ++++----
 src/module/http/sps_http_socket.cpp              | 4 ++--
 src/module/http/sps_http_socket.hpp              | 8 ++++----
 8 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 59093ea..6a48fc1 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -195,13 +195,13 @@ bool RequestUrl::is_chunked() {
     return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
-int RequestUrl::get_content_length() {
+int64_t RequestUrl::get_content_length() {
     std::string cl = get_header("Content-Length");
     if (cl.empty()) {
         return -1;
     }
 
-    return atoi(cl.c_str());
+    return atoll(cl.c_str());
 }
 
 utime_t RequestUrl::get_timeout() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index b6020ba..a5792f9 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -79,7 +79,7 @@ class RequestUrl {
 
  public:
     bool is_chunked();
-    int  get_content_length();
+    int64_t get_content_length();
 
  public:
     utime_t      get_timeout();
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index c1f4067..fe95852 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -37,7 +37,7 @@ std::string HttpResponse::error() {
 }
 
 // http parse的结果
-int HttpParserContext::content_length() {
+int64_t HttpParserContext::content_length() {
     return http.content_length;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 203c230..9ca5d28 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -47,7 +47,7 @@ enum HttpType {
 
 class HttpResponse : public Response {
  public:
-    int   content_length = -1;
+    int64_t content_length = -1;
     int   status_code    = -1;
     bool  chunked        = false;
     std::list<RequestHeader> headers;
@@ -73,7 +73,7 @@ class HttpParserContext {
 
  public:
     // http parse的结果
-    int content_length();
+    int64_t content_length();
     bool is_chunked();
     int status_code();
     const char* method();
diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 5f21fc8..63ad815 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -49,10 +49,10 @@ error_t HttpParsePhaseHandler::handler(IConnection &c) {
                                                                                  ;
     c.set_context(ctx);
 
-    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %d",
+    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %lld",
              req->ip.c_str(), req->port, req->get_method(),
              req->host.c_str(), req->url.c_str(), req->params.c_str(),
-             req->is_chunked(), req->get_content_length());
+             req->is_chunked(), (long long) req->get_content_length());
 
     return SPS_PHASE_CONTINUE;
 }
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index c81ac20..153a53f 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -70,12 +70,12 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     rsp.init(http_rsp->status_code, &http_rsp->headers, http_rsp->content_length, http_rsp->chunked);
 
     if ((ret = rsp.write_header()) != SUCCESS) {
-        sp_error("write head status: %d, %lu, %d, %d.", http_rsp->status_code,
-                 http_rsp->headers.size(), http_rsp->content_length, ret);
+        sp_error("write head status: %d, %lu, %lld, %d.", http_rsp->status_code,
+                 http_rsp->headers.size(), (long long) http_rsp->content_length, ret);
         return ret;
     }
-    sp_debug("write head status %d, %lu, %d.", http_rsp->status_code,
-             http_rsp->headers.size(), http_rsp->content_length);
+    sp_debug("write head status %d, %lu, %lld.", http_rsp->status_code,
+             http_rsp->headers.size(), (long long) http_rsp->content_length);
 
     char   buf[1024];
     int    len  = sizeof(buf);
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 75f0321..bca17fc 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -37,7 +37,7 @@ HttpRequestSocket::HttpRequestSocket(PIReaderWriter rw,
                                      const std::string &ip,
                                      int port,
                                      bool chunked,
-                                     int cl) :
+                                     int64_t cl) :
         Socket(std::move(rw), ip, port) {
     this->chunked        = chunked;
     this->content_length = cl;
@@ -162,7 +162,7 @@ HttpResponseSocket::HttpResponseSocket(PIReaderWriter rw,
 }
 
 error_t HttpResponseSocket::init(int s_code, std::list<RequestHeader> *hd,
-                                 int cl, bool ch) {
+                                 int64_t cl, bool ch) {
     this->status_code    = s_code;
     this->content_length = cl;
     this->chunked        = ch;
diff --git a/src/module/http/sps_http_socket.hpp b/src/module/http/sps_http_socket.hpp
index 2103652..a49f477 100644
--- a/src/module/http/sps_http_socket.hpp
+++ b/src/module/http/sps_http_socket.hpp
@@ -37,7 +37,7 @@ namespace sps {
 class HttpRequestSocket : public Socket {
  public:
     HttpRequestSocket(PIReaderWriter rw, const std::string& ip,
-                      int port, bool chunked, int content_length);
+                      int port, bool chunked, int64_t content_length);
 
  public:
     error_t read(void* buf, size_t size, size_t& nread) override;
@@ -50,7 +50,7 @@ class HttpRequestSocket : public Socket {
 
  public:
     bool   chunked;
-    int    content_length;
+    int64_t content_length;
     bool   is_eof          = false;
     size_t nread           = 0;
     size_t nb_chunked_size = 0;
@@ -63,14 +63,14 @@ class HttpResponseSocket : public Socket {
 
  public:
     error_t init(int s_code, std::list<RequestHeader>* hd,
-                 int content_len, bool chunked);
+                 int64_t content_len, bool chunked);
     error_t write_header();
     error_t write(void* buf, size_t size) override;
 
  private:
     int  status_code    = 200;
     bool sent_header    = false;
-    int  content_length = 0;
+    int64_t content_length = 0;
     bool chunked        = false;
     std::list<RequestHeader> headers;
 };
-- 
2.43.0


From 73cf05241f502bd319a2cf452b34b05a67cd1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:22 +0000
Subject: [PATCH 007/101] fix: refuse http heads that do not parse to their end

---
 src/module/http/sps_http_parser.cpp | 10 +++++++++-
 src/module/http/sps_http_parser.hpp |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index fe95852..35f0333 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -191,6 +191,11 @@ int HttpParser::parse_header(const char *b, int len, HttpType ht) {
         sp_error("parse execute zero %.*s", len, b);
     }
 
+    if (!ctx->headers_complete) {
+        sp_error("invalid http head %s", http_errno_name(HTTP_PARSER_ERRNO(&ctx->http)));
+        return -1;
+    }
+
     if ((ht == HttpType::REQUEST || ht == HttpType::BOTH) && parsed >= 0)  {
         ctx->parse_request();
     } else if ((ht == HttpType::RESPONSE || ht == HttpType::BOTH)
@@ -254,7 +259,10 @@ int HttpParser::on_header_value(http_parser* hp, const char *at,
     return SUCCESS;
 }
 
-int HttpParser::on_headers_complete(http_parser* ) {
+int HttpParser::on_headers_complete(http_parser* hp) {
+    auto p = static_cast<HttpParser *>(hp->data);
+
+    p->ctx->headers_complete = true;
     return SUCCESS;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 9ca5d28..8765a1c 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -70,6 +70,7 @@ class HttpParserContext {
     std::list<RequestHeader> headers;
     std::string              url;
     std::string              body;
+    bool                     headers_complete = false;
 
  public:
     // http parse的结果
-- 
2.43.0


From 3840a077e14230b925ca7587987df7d4efcee000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:32 +0000
Subject: [PATCH 008/101] fix: an http body of length zero ends at once

Reading it asked the transport for zero bytes, which is an error
(ERROR_IO_BUFFER_FULL), so that an empty body was reported as a failure
instead of as its end.
---
 src/io/url/sps_io_url_http.cpp      | 4 ++++
 src/module/http/sps_http_socket.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 6ae30f0..b3644a7 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -109,6 +109,10 @@ error_t HttpUrlProtocol::read(void *buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (rsp->content_length >= 0) {
+        if (nread >= static_cast<size_t>(rsp->content_length)) {
+            is_eof = true;
+            return ERROR_HTTP_RES_EOF;
+        }
         size = std::min(rsp->content_length-nread, size);
     }
 
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index bca17fc..ffb0a60 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -54,6 +54,10 @@ error_t HttpRequestSocket::read(void* buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (content_length >= 0) {
+        if (nread >= static_cast<size_t>(content_length)) {
+            is_eof = true;
+            return ERROR_HTTP_RES_EOF;
+        }
         size = std::min(content_length-nread, size);
     }
 
-- 
2.43.0


From 23be293a4f7dac830d47b6de04c3f5ea577b988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:32 +0000
Subject: [PATCH 009/101] fix: refuse http chunks whose size is not a number

strtoul() turned any garbage into size 0, that is, into the regular end of
the body.
---
 src/io/url/sps_io_url_http.cpp      | 10 ++++++++++
 src/module/http/sps_http_socket.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index b3644a7..261472a 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -27,6 +27,7 @@ SOFTWARE.
 #include <sps_io_socket.hpp>
 #include <sps_log.hpp>
 
+#include <string.h>
 #include <strings.h>
 
 #include <algorithm>
@@ -174,6 +175,15 @@ error_t HttpUrlProtocol::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
+    // hex digits, optionally followed by an extension
+    size_t digits = strspn(tmp_buf, "0123456789abcdefABCDEF");
+    if (digits == 0 || digits > sizeof(size_t) * 2 ||
+        (digits != (size_t) i - 2 && strchr("; \t", tmp_buf[digits]) == nullptr) ||
+        strlen(tmp_buf) != (size_t) i - 2) {
+        sp_error("invalid read chunked length %s", tmp_buf);
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
+
     nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
 
     sp_debug("read chunked length %lu", nb_chunked_size);
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index ffb0a60..fd3d134 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_http_socket.hpp>
 
 #include <http_parser.h>
+#include <string.h>
 #include <strings.h>
 
 #include <sstream>
@@ -123,6 +124,15 @@ error_t HttpRequestSocket::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
+    // hex digits, optionally followed by an extension
+    size_t digits = strspn(tmp_buf, "0123456789abcdefABCDEF");
+    if (digits == 0 || digits > sizeof(size_t) * 2 ||
+        (digits != (size_t) i - 2 && strchr("; \t", tmp_buf[digits]) == nullptr) ||
+        strlen(tmp_buf) != (size_t) i - 2) {
+        sp_error("invalid read chunked length %s", tmp_buf);
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
+
     nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
 
     sp_debug("read chunked length %lu", nb_chunked_size);
-- 
2.43.0


From 77fdc37751fde9668b9564cf9de6d5319248672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:55 +0000
Subject: [PATCH 010/101] fix: delimit the 403 and 404 responses of stream
 requests

They were sent without a length on a connection that stays open, so that
the client could not see where they end.
---
 src/module/http/sps_http_stream_phase_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1d6b05c..1f7fe96 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -50,14 +50,14 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
     ret = sh->handler(c);
 
     if (ret == ERROR_STREAM_PUBLISH_NOT_SUPPORT) {
-        rsp->init(403, nullptr, -1, false);
+        rsp->init(403, nullptr, 0, false);
         ret = rsp->write_header();
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
         return ret;
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
-        rsp->init(404, nullptr, -1, false);
+        rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
-- 
2.43.0


From 84e6b1e72e37feda8025757c073496470a706276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 011/101] fix: formats match whole extensions only

The length of the format's own extension was used for both strings, so that
/live/x.flvx was taken for flv.
---
 src/avformat/sps_avformat_dec.cpp | 4 ++--
 src/avformat/sps_avformat_enc.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_dec.cpp b/src/avformat/sps_avformat_dec.cpp
index 0c41c93..6540844 100644
--- a/src/avformat/sps_avformat_dec.cpp
+++ b/src/avformat/sps_avformat_dec.cpp
@@ -36,8 +36,8 @@ IAVInputFormat::IAVInputFormat(const char *name, const char *ext) {
 
 bool IAVInputFormat::match(const char *e) const {
     int n = strlen(ext);
-    int m = strlen(ext);
-    return  memcmp(ext, e, std::max(n, m)) == 0;
+    int m = strlen(e);
+    return  n == m && memcmp(ext, e, n) == 0;
 }
 
 PIAVDemuxer IAVInputFormat::create2(PIReader p) {
diff --git a/src/avformat/sps_avformat_enc.cpp b/src/avformat/sps_avformat_enc.cpp
index 1a1032c..cde4121 100644
--- a/src/avformat/sps_avformat_enc.cpp
+++ b/src/avformat/sps_avformat_enc.cpp
@@ -42,8 +42,8 @@ IAVOutputFormat::IAVOutputFormat(const char *name, const char *ext) {
 
 bool IAVOutputFormat::match(const char *e) const {
     int n = strlen(ext);
-    int m = strlen(ext);
-    return memcmp(ext, e, std::max(n, m)) == 0;
+    int m = strlen(e);
+    return n == m && memcmp(ext, e, n) == 0;
 }
 
 PIAVMuxer IAVOutputFormat::create2(PIWriter pw, PRequestUrl& url) {
-- 
2.43.0


From 0b4c4cb3d9fd831ce0330be9209e3edecbffac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:47 +0000
Subject: [PATCH 012/101] fix: one framing header per http response

---
 src/module/http/sps_http_socket.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index fd3d134..fcf6795 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -203,7 +203,14 @@ error_t HttpResponseSocket::write_header() {
     }
 
     for (auto& h : headers) {
-        if (strcasecmp(h.key.c_str(), "Content-Length") == 0 && content_sent) {
+        // the framing of this response has been written above
+        if (strcasecmp(h.key.c_str(), "Content-Length") == 0 &&
+            (content_sent || chunked)) {
+            continue;
+        }
+
+        if (strcasecmp(h.key.c_str(), "Transfer-Encoding") == 0 &&
+            (content_sent || chunked)) {
             continue;
         }
 
-- 
2.43.0


From c8c816a0e6ceda4ed2a34f7c01e119bdd2471715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:21 +0000
Subject: [PATCH 013/101] fix: responses without a body end with their head

---
 src/io/url/sps_io_url_http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 261472a..15aefbd 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -94,6 +94,10 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
 
     PHttpResponse http_rsp = rsp = parser.get_response();
 
+    // responses that never have a body, whatever their headers say
+    is_eof = url->method == "HEAD" || http_rsp->status_code == 204 ||
+             http_rsp->status_code == 304;
+
     init(socket, ip, url->get_port(), "", -1);
 
     return SUCCESS;
-- 
2.43.0


From c5ee8ce427da18c1a491a0746135427cdfc49793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:04 +0000
Subject: [PATCH 014/101] fix: upstream tcp connections time out like tls ones

---
 src/io/sps_io_socket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/sps_io_socket.cpp b/src/io/sps_io_socket.cpp
index 655e1ca..fe6e829 100644
--- a/src/io/sps_io_socket.cpp
+++ b/src/io/sps_io_socket.cpp
@@ -154,7 +154,10 @@ PSocket ClientSocketFactory::create_ss(
                 return nullptr;
             }
 
-            return std::make_shared<Socket>(std::make_shared<StTcpSocket>(fd), peer_ip, port);
+            auto ss = std::make_shared<Socket>(std::make_shared<StTcpSocket>(fd), peer_ip, port);
+            ss->set_send_timeout(tm);
+            ss->set_recv_timeout(tm);
+            return ss;
         }
 
 #ifdef SRT_ENABLED
-- 
2.43.0


From c16d55bbbbf756818d22705017c34d1c5e46e27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:53 +0000
Subject: [PATCH 015/101] fix: edge pulls of formats without a demuxer fail
 instead of crashing

---
 src/module/stream/sps_stream_edge.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index f6898ea..57925e0 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -68,6 +68,11 @@ error_t StreamEdge::handler() {
 
     do {
         auto dec = avf.create(io, url);
+        if (!dec) {
+            sp_error("Fail found decoder %s-%s", url->get_host(), url->get_url());
+            ret = ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
+            break;
+        }
         cache    = StreamCache::create_av_streamcache(key);
         cache->set_ctx(dec->get_av_ctx());
         cond->signal();
-- 
2.43.0


From 61429986b502cc0a6c24974625a464277ace9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:19 +0000
Subject: [PATCH 016/101] fix: a stopped edge no longer withdraws its successor

---
 src/module/stream/sps_stream_edge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index 57925e0..2b68b2a 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -97,6 +97,10 @@ error_t StreamEdge::start() {
 }
 
 error_t StreamEdge::stop() {
+    // stop once: afterwards the key may belong to a newer edge
+    if (!started) {
+        return SUCCESS;
+    }
     started = false;
 
     if (cache) {
-- 
2.43.0


From 51eba1be09be628fb2a88d2ca87858007b891a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:08 +0000
Subject: [PATCH 017/101] fix: servers merged into one port share its router

The hosts of further server blocks of a port were appended to a list nobody
reads, and with two http blocks the global hosts were added twice, which is
refused as a duplicate.
---
 src/module/server/sps_server_module.cpp | 26 +++++++++++++++++++++++--
 src/module/server/sps_server_module.hpp |  4 ++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index f0dce52..2548728 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -53,6 +53,9 @@ error_t ServerModule::get_router(ServerModule* sm, PHostModulesRouter& hr) {
             return ret;
         }
     }
+
+    // the servers merged into this one later share its router
+    sm->router = hr;
     return ret;
 }
 
@@ -117,6 +120,9 @@ error_t ServerModule::merge_global(PIModule& module) {
 
     for (auto& hm : dm->host_modules) {
         sp_debug("server merge global host %s", hm->module_name.c_str());
+        if (has_host(hm)) {
+            continue;
+        }
         host_modules.push_back(hm);
     }
 
@@ -214,9 +220,25 @@ error_t ServerModule::merge_server(PServerModule server_module) {
 }
 
 error_t ServerModule::merge_hosts(std::vector<PHostModule>& hosts) {
-    host_modules.insert(host_modules.end(), hosts.begin(), hosts.end());
-    return SUCCESS;
+    error_t ret = SUCCESS;
+
+    for (auto& h : hosts) {
+        if (has_host(h)) {  // global hosts are hosts of every server
+            continue;
+        }
+
+        if (router && (ret = router->register_host(h)) != SUCCESS) {
+            sp_error("fail merge host %s ret %d", h->module_name.c_str(), ret);
+            return ret;
+        }
+        host_modules.push_back(h);
+    }
+    return ret;
 }
 
+bool ServerModule::has_host(const PHostModule& host) {
+    return std::find(host_modules.begin(), host_modules.end(), host)
+            != host_modules.end();
+}
 
 }  // namespace sps
diff --git a/src/module/server/sps_server_module.hpp b/src/module/server/sps_server_module.hpp
index 238038e..0ba0224 100644
--- a/src/module/server/sps_server_module.hpp
+++ b/src/module/server/sps_server_module.hpp
@@ -110,8 +110,12 @@ class ServerModule : public IModule {
  public:
     std::vector<PHostModule> host_modules;
 
+ private:
+    bool has_host(const PHostModule& host);
+
  private:
     PIConnHandlerFactory socket_handler;
+    PHostModulesRouter   router;
     PServer              server;
 };
 
-- 
2.43.0


From e85f5292c4a3931b3ecdc2bf5c8f39b1d3987dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:25 +0000
Subject: [PATCH 018/101] fix: hosts with enabled off are not served

---
 src/module/host/sps_host_module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index 35a275b..39e6c5a 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -160,6 +160,11 @@ std::string HostModulesRouter::get_wildcard_host(std::string host) {
 }
 
 error_t HostModulesRouter::register_host(PHostModule host) {
+    if (!host->enabled()) {
+        sp_info("host %s disabled", host->module_name.c_str());
+        return SUCCESS;
+    }
+
     if (host->module_name[0] != '*') {
         if (exact_hosts.count(host->module_name)) {
             sp_error("dup host %s", host->module_name.c_str());
-- 
2.43.0


From 3121eb79437ffee120b57bd06f0c802dff99c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:56 +0000
Subject: [PATCH 019/101] fix: a failing accept no longer ends the server

---
 src/sys/st/io/sps_sys_st_io_tcp.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_tcp.cpp b/src/sys/st/io/sps_sys_st_io_tcp.cpp
index 22062b9..41f9dd5 100644
--- a/src/sys/st/io/sps_sys_st_io_tcp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_tcp.cpp
@@ -36,6 +36,8 @@ SOFTWARE.
 
 namespace sps {
 
+static const utime_t ACCEPT_RETRY_INTERVAL = 10 * 1000;
+
 int SockOpt::apply(st_netfd_t fd) {
     if (setsockopt(st_netfd_fileno(fd), level, optname, optval, optlen) < 0) {
         sp_error("SockOpt:::%d %d %d", st_netfd_fileno(fd), optname);
@@ -353,8 +355,16 @@ PSocket StTcpServerSocket::accept() {
 
     char buf[INET6_ADDRSTRLEN];
     memset(buf, 0, sizeof(buf));
-    auto cfd = st_tcp_accept(server_fd, (struct sockaddr*) &addr,
-                             &len, ST_UTIME_NO_TIMEOUT);
+    st_netfd_t cfd = nullptr;
+    while (!(cfd = st_tcp_accept(server_fd, (struct sockaddr*) &addr,
+                                 &len, ST_UTIME_NO_TIMEOUT))) {
+        // such as out of fds, let the others go on
+        sp_error("failed accept %s:%d", ip.c_str(), port);
+        st_usleep(ACCEPT_RETRY_INTERVAL);
+        len = sizeof(addr);
+    }
+
+    auto io = std::make_shared<StTcpSocket>(cfd);
 
     std::string cip;
     int         cport = 0;
@@ -363,7 +373,7 @@ PSocket StTcpServerSocket::accept() {
     // discovery client information
     socklen_t len2 = sizeof(addr);
     if (getsockname(st_netfd_fileno(cfd), (sockaddr*) &addr, &len2) == -1) {
-        return nullptr;
+        sp_warn("failed get self address of client %s:%d", cip.c_str(), cport);
     }
 
     std::string sip;
@@ -377,7 +387,6 @@ PSocket StTcpServerSocket::accept() {
               st_tcp_fd(cfd), ip.c_str(), port,
               sip.c_str(), sport);
 
-    auto io = std::make_shared<StTcpSocket>(cfd);
     return std::make_shared<Socket>(io, cip, cport, sip, sport);
 }
 
-- 
2.43.0


From 069e130d213d8ed5d152142581b2f615edba5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 020/101] fix: the last line of a memory reader has no end of
 line either

---
 src/io/sps_io_memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/sps_io_memory.cpp b/src/io/sps_io_memory.cpp
index ce0e5ec..4700a79 100644
--- a/src/io/sps_io_memory.cpp
+++ b/src/io/sps_io_memory.cpp
@@ -81,7 +81,8 @@ error_t MemoryReaderWriter::read_line(std::string &line) {
     while (pos < len && buf[pos++] != '\n') {
     }
 
-    int tlen = (pos < len) ? (pos-start-1) : (pos-start);
+    // without the end of line, which the last line may lack
+    int tlen = buf[pos-1] == '\n' ? (pos-start-1) : (pos-start);
 
     line = std::string(buf + start, tlen);
 
-- 
2.43.0


From 790db90f96e87f7c6ec0bfcb4b4db3a538bc40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 021/101] fix: memory reader does not log the unset destination
 as a string

---
 src/io/sps_io_memory.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/io/sps_io_memory.cpp b/src/io/sps_io_memory.cpp
index 4700a79..c5dc687 100644
--- a/src/io/sps_io_memory.cpp
+++ b/src/io/sps_io_memory.cpp
@@ -103,7 +103,6 @@ error_t MemoryReaderWriter::read_fully(void *buf,
         return ERROR_IO_EOF;
     }
 
-    sp_debug("%s", buf);
     memcpy((char*) buf, this->buf + pos, n);
 
     pos += n;
-- 
2.43.0


From bf16768c545cdec34c9634ed2f4c6470244e84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 022/101] fix: consecutive writes to memory follow each other

---
 src/io/sps_io_memory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/sps_io_memory.cpp b/src/io/sps_io_memory.cpp
index c5dc687..b8534c1 100644
--- a/src/io/sps_io_memory.cpp
+++ b/src/io/sps_io_memory.cpp
@@ -125,6 +125,8 @@ error_t MemoryReaderWriter::write(void *buf, size_t size) {
     }
 
     memcpy(this->buf + pos, buf, size);
+
+    pos += size;
     return SUCCESS;
 }
 
-- 
2.43.0


From ffc61a7a906ae53301afb5204b9055c9dc246974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 023/101] fix: reading a file at its end is an error, not a
 success without bytes

---
 src/io/url/sps_io_url_file.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index b230a07..5633e32 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -75,6 +75,10 @@ void FileURLProtocol::close() {
 
 error_t FileURLProtocol::read_fully(void *buf, size_t size, ssize_t *nread) {
     fh.read((char*) buf, size);
+
+    if (nread) {
+        *nread = fh.gcount();
+    }
     return fh.fail() ? ERROR_IO_EOF : SUCCESS;
 }
 
@@ -90,6 +94,9 @@ error_t FileURLProtocol::read(void *buf, size_t size, size_t &nread) {
     fh.read((char*) buf, size);
 
     nread = fh.gcount();
+    if (nread == 0 && size > 0) {
+        return fh.eof() ? ERROR_IO_EOF : ERROR_FILE_READ;
+    }
     return SUCCESS;
 }
 
-- 
2.43.0


From 4a3beed031baf645d9f92410891bbbb458f0a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:35 +0000
Subject: [PATCH 024/101] fix: a socket reports how much it has read fully

---
 src/io/sps_io_socket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/sps_io_socket.cpp b/src/io/sps_io_socket.cpp
index fe6e829..6c6eb0b 100644
--- a/src/io/sps_io_socket.cpp
+++ b/src/io/sps_io_socket.cpp
@@ -90,6 +90,9 @@ error_t Socket::read_fully(void* buf, size_t size, ssize_t* nread) {
         nr = 0;
     } while (n < size);
 
+    if (nread) {
+        *nread = n;
+    }
     return ret;
 }
 
-- 
2.43.0


From 26135e46e2b0138f02945387eab4c36961fdda39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 025/101] fix: pass_proxy may name an upstream block, for edges
 too

---
 src/module/host/sps_host_module.cpp   | 13 ++++++++++++-
 src/module/host/sps_host_module.hpp   |  1 +
 src/module/stream/sps_stream_edge.cpp |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index 39e6c5a..ef929e5 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -131,8 +131,19 @@ std::string HostModule::ssl_cert_file() {
     return host->ssl_crt_file;
 }
 
+std::string HostModule::proxy_server() {
+    if (upstream_module) {
+        return upstream_module->get_server();
+    }
+
+    // name of an upstream or the address itself
+    auto proxy    = pass_proxy();
+    auto upstream = SingleInstance<UpStreamModules>::get_instance().get(proxy);
+    return upstream ? upstream->get_server() : proxy;
+}
+
 error_t HostModule::get_proxy_info(std::string& ip, int& port) {
-    auto proxy = upstream_module ? upstream_module->get_server() : pass_proxy();
+    auto proxy = proxy_server();
     auto n     = proxy.find(':', 0);
 
     if (n != std::string::npos) {
diff --git a/src/module/host/sps_host_module.hpp b/src/module/host/sps_host_module.hpp
index e202501..d55f0a5 100644
--- a/src/module/host/sps_host_module.hpp
+++ b/src/module/host/sps_host_module.hpp
@@ -94,6 +94,7 @@ class HostModule : public IModule {
     bool        support_publish(const std::string& format);
     std::string edge_format();
     std::string pass_proxy();
+    std::string proxy_server();
     std::string pass_url();
     std::string role();
     std::string ssl_key_file();
diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index 2b68b2a..2ae027b 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -139,7 +139,7 @@ error_t StreamEdgeEnter::start_edge(const std::string& key, PHostModule& host, P
 
     std::string ip;
     int         port       = url->schema == "rtmp" ? 1935 : (url->schema == "https" ? 443 : 80);
-    auto        proxy      = host->pass_proxy();
+    auto        proxy      = host->proxy_server();
     auto        proxy_url  = host->pass_url();
     PStreamEdge edge;
     PRequestUrl proxy_req;
-- 
2.43.0


From 2ed4345655f2a5ded47ca90f7bd261a8fa597c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 026/101] fix: comments may contain ends of items and blocks

---
 src/module/sps_module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 723a584..0fbd452 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -227,6 +227,11 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
             continue;
         }
 
+        if (args.empty() && tmp_arg[0] == '#') {
+            lt = COMMENT;
+            return SUCCESS;
+        }
+
         if (found_end) {
             if (tmp_arg[0] == '#') {
                 break; // ignore #
@@ -261,11 +266,6 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return SUCCESS;
     }
 
-    if (args[0][0] == '#') {
-        lt = COMMENT;
-        return SUCCESS;
-    }
-
     if (!found_end) {  // no end flag
         sp_error("Fatal no end flag %s", line.c_str());
         return ERROR_CONFIG_PARSE_INVALID;
-- 
2.43.0


From 2d2cbe323f8084ec8a4253b6f6f2637eb5ad1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 027/101] fix: refuse items in front of the end of a block

---
 src/module/sps_module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 0fbd452..0186f99 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -280,6 +280,11 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return ERROR_CONFIG_PARSE_INVALID;
     }
 
+    if (lt == SUBMODULE_END) {
+        sp_error("unknown args before block end %s.", line.c_str());
+        return ERROR_CONFIG_PARSE_INVALID;
+    }
+
     cmd = args[0];
     if (cmd == "{" || cmd == "}") {
         sp_error("unknown cmd line type %s.", line.c_str());
-- 
2.43.0


From ce885c92ddde701a322eb620c64e1f4006d9e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 028/101] fix: keep the name of a block its brace sticks to

---
 src/module/sps_module.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 0186f99..8fdfc13 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -299,11 +299,10 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         }
     }
 
-    if (lt != SUBMODULE_START && lt != SUBMODULE_END) {
-        if (*args.rbegin() != ";") {
-            arg += (arg.empty() ? std::string("") : std::string(" ")) +
-                   args.rbegin()->substr(0, args.rbegin()->size() - 1);
-        }
+    // the end flag may stick to the last arg
+    if (args.rbegin()->size() > 1) {
+        arg += (arg.empty() ? std::string("") : std::string(" ")) +
+               args.rbegin()->substr(0, args.rbegin()->size() - 1);
     }
 
     sp_debug("parse line (%s)->(%s) size:%lu", cmd.c_str(),
-- 
2.43.0


From a8f5b000869dbba0be45e0f799f0df4da31a116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 029/101] fix: only on switches a flag on

---
 src/module/sps_module_opt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/sps_module_opt.cpp b/src/module/sps_module_opt.cpp
index 89ad432..d1c18f8 100644
--- a/src/module/sps_module_opt.cpp
+++ b/src/module/sps_module_opt.cpp
@@ -86,7 +86,7 @@ error_t ConfigOption::opt_set(void *obj, const char *val, int len) const {
             sp_debug("set string { %s->%s } success", name, val);
             break;
         case CONF_OPT_TYPE_BOOL: {
-            bool num = memcmp(val, "on", 2) == 0;
+            bool num = strcmp(val, "on") == 0;
             memcpy(dst, (void*) &num, sizeof(num));
 
             sp_debug("------------------bool val %s -> %d-----------",
-- 
2.43.0


From 7e9ada414a2d3e780042c88fb0adf27c8a7980a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 030/101] fix: terminate the options of a location

---
 src/module/host/sps_host_loc_module.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/host/sps_host_loc_module.hpp b/src/module/host/sps_host_loc_module.hpp
index 3baa0ac..49d45ff 100644
--- a/src/module/host/sps_host_loc_module.hpp
+++ b/src/module/host/sps_host_loc_module.hpp
@@ -39,6 +39,7 @@ struct LocationConfCtx : public HostConfCtx {
 #define OFFSET(x) offsetof(LocationConfCtx, x)
 static const ConfigOption loc_options[] = {
         HOST_OPTIONS,
+        { nullptr }
 };
 #undef OFFSET
 
-- 
2.43.0


From f8be8bf7a2d76ce7f9cbee7d595d7ad1d03f0d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:35 +0000
Subject: [PATCH 031/101] fix: a parameter without value ends at the next &

---
 src/io/url/sps_io_url.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 6a48fc1..24383d3 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -27,6 +27,8 @@ SOFTWARE.
 
 #include <strings.h>
 
+#include <algorithm>
+
 #include <sps_log.hpp>
 
 namespace sps {
@@ -84,31 +86,20 @@ error_t RequestUrl::parse_url(const std::string& url) {
                             u.field_data[UF_QUERY].len);
     }
 
-    auto off_pre = 0;
-
-    do {
-        auto off_key = params.find_first_of('=', off_pre);
-        if (off_key == std::string::npos) break;
-
-        std::string key = params.substr(off_pre, off_key - off_pre), value;
-        off_pre         = off_key + 1;
-        auto off_value  = params.find_first_of('&', off_pre);
+    for (size_t off = 0; off < params.size(); ) {
+        auto end   = std::min(params.find('&', off), params.size());
+        auto param = params.substr(off, end - off);
+        auto eq    = param.find('=');
+        off        = end + 1;
 
-        if (off_value == std::string::npos) {
-            value   =  params.substr(off_pre);
-            pp.push_back(RequestHeader(key, value));
-            sp_debug("%lu, &:%u, [%s]=[%s], final:%u", off_key, -1,
-                     key.c_str(), value.c_str(), off_pre);
-            break;
+        if (param.empty()) {
+            continue;
         }
 
-        value = params.substr(off_pre, off_value - off_pre);
-        off_pre = off_value + 1;
-
-        sp_debug("%lu, &:%lu, [%s]=[%s], final:%u", off_key, off_value,
-                 key.c_str(), value.c_str(), off_pre);
-        pp.push_back(RequestParam(key, value));
-    } while (true);
+        pp.push_back(RequestParam(param.substr(0, eq),
+                eq == std::string::npos ? "" : param.substr(eq + 1)));
+        sp_debug("[%s]=[%s]", pp.back().key.c_str(), pp.back().value.c_str());
+    }
 
     auto n = path.rfind(".");
     if (n != std::string::npos) {
-- 
2.43.0


From 8ce022498a572379c3cb66cacf00b8501884d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:24 +0000
Subject: [PATCH 032/101] fix: the extension is that of the last path segment

---
 src/io/url/sps_io_url.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 24383d3..3766d2d 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -101,8 +101,9 @@ error_t RequestUrl::parse_url(const std::string& url) {
         sp_debug("[%s]=[%s]", pp.back().key.c_str(), pp.back().value.c_str());
     }
 
-    auto n = path.rfind(".");
-    if (n != std::string::npos) {
+    // only of the last segment, /a.b/c has none
+    auto n = path.find_last_of("./");
+    if (n != std::string::npos && path[n] == '.') {
         ext = path.substr(n+1);
     }
 
-- 
2.43.0


From 31932a8cb792a9a315ed1407aa090cfda29acd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:29 +0000
Subject: [PATCH 033/101] fix: a file url names that file

---
 src/io/url/sps_io_url.cpp | 39 ++++++++++++++++++++++++++-------------
 src/io/url/sps_io_url.hpp |  3 +++
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 3766d2d..7ace2eb 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -47,6 +47,23 @@ error_t RequestUrl::from(const std::string &url, PRequestUrl &req) {
 
 error_t RequestUrl::parse_url(const std::string& url) {
     struct http_parser_url u;
+    const std::string file_schema = "file://";
+
+    if (url.compare(0, file_schema.size(), file_schema) == 0) {
+        // all the rest is the name of the file
+        schema    = "file";
+        path      = url.substr(file_schema.size());
+        this->url = path;
+        port      = -1;
+        method    = "GET";
+
+        if (path.empty()) {
+            sp_error("parser url failed:%s", url.c_str());
+            return -1;
+        }
+        set_ext();
+        return SUCCESS;
+    }
 
     if (http_parser_parse_url(url.c_str(), url.size(), 0, &u) != 0) {
         sp_error("parser url failed:%s", url.c_str());
@@ -66,8 +83,6 @@ error_t RequestUrl::parse_url(const std::string& url) {
         port = 443;
     } else if (schema == "rtmp") {
             port = 1935;
-    } else if (schema == "file") {
-        port = 0; // ignore it
     } else {
         sp_warn("not found default port for schema:%s", schema.c_str());
         port = 0;  // unknown port
@@ -101,23 +116,13 @@ error_t RequestUrl::parse_url(const std::string& url) {
         sp_debug("[%s]=[%s]", pp.back().key.c_str(), pp.back().value.c_str());
     }
 
-    // only of the last segment, /a.b/c has none
-    auto n = path.find_last_of("./");
-    if (n != std::string::npos && path[n] == '.') {
-        ext = path.substr(n+1);
-    }
+    set_ext();
 
     if (method.empty()) {
         method = "GET";
     }
 
     this->url = path + (params.empty() ? "" : "?" + params);
-    if (schema == "file") {
-        this->url    = url.substr(sizeof("file://"));
-        this->path   = url;
-        this->params = "";
-        this->port   = -1;
-    }
 
     sp_debug("url:%s -> [%s] [%s:%d] [%s] [%s] [%s] [%s]",
              url.c_str(), schema.c_str(), host.c_str(), port, path.c_str(),
@@ -127,6 +132,14 @@ error_t RequestUrl::parse_url(const std::string& url) {
     return SUCCESS;
 }
 
+void RequestUrl::set_ext() {
+    // only of the last segment, /a.b/c has none
+    auto n = path.find_last_of("./");
+    if (n != std::string::npos && path[n] == '.') {
+        ext = path.substr(n+1);
+    }
+}
+
 const char* RequestUrl::get_schema() {
     return schema.c_str();
 }
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index a5792f9..209be11 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -86,6 +86,9 @@ class RequestUrl {
     std::string  get_ip();
     void         set_ip_port(std::string ip, int port);
 
+ private:
+    void set_ext();
+
  public:
     std::string url;
     std::string method;
-- 
2.43.0


From 312c06f5b9fac336abf039ab29518a097a624b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 034/101] fix: ADTS frames with CRC do not repeat the
 configuration

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 5c0d5d1..6482cd1 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -55,7 +55,7 @@ AdtsFixedHeader::AdtsFixedHeader() {
 }
 
 bool AdtsFixedHeader::operator==(const AdtsFixedHeader &header) {
-    return protection_absent = header.protection_absent &&
+    return protection_absent == header.protection_absent &&
             profile == header.profile &&
             sampling_frequency_index == header.sampling_frequency_index &&
                     channel_configuration == header.channel_configuration &&
-- 
2.43.0


From 7c23549f607514114d8a0180895152f3d8a6032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:06 +0000
Subject: [PATCH 035/101] fix: an ADTS frame must lie within the data

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 6482cd1..bafc263 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -96,6 +96,10 @@ error_t AdtsFixedHeader::decode(BitContext *bc) {
     no_raw_data_blocks_in_frame = bc->read_bits(2);
 
     if (!protection_absent) {
+        if (bc->acquire(2) != SUCCESS) {
+            sp_error("aac no crc");
+            return ERROR_AAC_DECODER;
+        }
         crc16 = bc->read_bits(16);
     }
 
@@ -173,6 +177,11 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
                      FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
 
         int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
+        if (buf_size < 0 || (size_t) buf_size > bc.size()) {
+            sp_error("aac frame length %d, left %lu", tmp_header.aac_frame_length, bc.size());
+            return ERROR_AAC_DECODER;
+        }
+
         auto pkt = AVPacket::create(
                 AV_MESSAGE_DATA,
                 AV_STREAM_TYPE_AUDIO,
-- 
2.43.0


From 0ab72d77539d8c9a8d7ca81d48be3b60b027431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:31 +0000
Subject: [PATCH 036/101] fix: zeros between two NAL units belong to neither

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 7a0dc7c..81fe0af 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -192,6 +192,7 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
 
     while (bc.acquire(4) == SUCCESS) {
         size_t nalu_size = 0;
+        size_t zero_size = 0;  // annexb trailing zeros after the nalu
 
         if (is_avc) {
             nalu_size = bc.read_bits((nalu_length_size_minus_one + 1) * 8);
@@ -208,6 +209,13 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
                 sp_debug("not found next nalu, push full");
             }
             bc.skip_read_bytes(start_pos - bc.pos() + 3);
+
+            // neither trailing_zero_8bits nor the first zero of the next
+            // 00 00 00 01 belong to the nalu
+            while (nalu_size > 0 && bc.pos()[nalu_size-1] == 0) {
+                --nalu_size;
+                ++zero_size;
+            }
         }
 
         if (bc.acquire(nalu_size) != SUCCESS) {
@@ -218,7 +226,7 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
         if ((ret = ctx->append(bc.pos(), nalu_size)) != SUCCESS) {
             return ret;
         }
-        bc.skip_read_bytes(nalu_size);
+        bc.skip_read_bytes(nalu_size + zero_size);
     }
 
     return SUCCESS;
-- 
2.43.0


From 6ca410b1854b325c29c6d663bda6c2eed18edbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:33 +0000
Subject: [PATCH 037/101] fix: the AVC record names the compatibility of the
 SPS

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 81fe0af..32910a0 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -277,11 +277,11 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
         BitContext bc(pkt->buffer(), pkt->cap());
         bc.write_int8(0x01);  // avc version
         bc.write_int8(sps->nalu_buf[1]);  // avc profile
-        bc.write_int8(0x00);  // avc compatibility
+        bc.write_int8(sps->nalu_buf[2]);  // avc compatibility
         bc.write_int8(sps->nalu_buf[3]);  // avc level
-        bc.write_int8(nalu_length_size_minus_one);  // avc level
+        bc.write_int8(0xfc | nalu_length_size_minus_one);  // reserved, nalu length size
 
-        bc.write_int8(1);  // 1 sps num
+        bc.write_int8(0xe0 | 1);  // reserved, 1 sps num
         bc.write_int16(sps->nalu_size);
         // bc.write_int32(0x01);  // nalu start code 00 00 00 01
         bc.write_bytes(sps->nalu_buf, sps->nalu_size);
-- 
2.43.0


From 9b29844662b7f143f4458f9a2b54c2e7fe40c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:48 +0000
Subject: [PATCH 038/101] fix: a start code at the end of the data ends the NAL
 unit

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 32910a0..f4db663 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -99,7 +99,7 @@ NALUParser::NALUParser(bool avc, int nsz) {
 }
 
 uint8_t* find_start_code(uint8_t* buf, size_t sz) {
-    while (sz > 3) {
+    while (sz >= 3) {
         if (buf[0] == 0 && buf[1] == 0 && buf[2] == 1) {
             return buf;
         }
-- 
2.43.0


From ee78033d851907a1d641463dbd518d24e056e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:59 +0000
Subject: [PATCH 039/101] fix: a video PES is as long as its payload

---
 src/avformat/sps_avformat_tsdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index 72786fd..e2c06b5 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -159,7 +159,7 @@ error_t TsDemuxer::on_h264(TsPesContext* pes) {
 
     AVCodecContext ctx(pes->dts, pes->pts, 90);
     ret = video_codec_parser->encode_avc(&ctx, pes->pes_packets->buffer(),
-                                         pes->pes_packet_length, pkts);
+                                         pes->pes_packets->size(), pkts);
 
     if (ret != SUCCESS) {
         sp_error("fail encode video ret %d", ret);
-- 
2.43.0


From 6652dabb47d2e82fe8f1264174e1034646cadaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 040/101] fix: the first continuity counter of a stream may be
 any

---
 src/avformat/sps_avformat_ts.cpp | 8 ++++----
 src/avformat/sps_avformat_ts.hpp | 1 -
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 3397571..5461d30 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -365,7 +365,6 @@ TsPesProgram::TsPesProgram(int pid, TsContext *ctx,
     pes_ctx           = std::make_unique<TsPesContext>(ctx, stream_type);
     this->stream_type = stream_type;
     this->pcr_pid     = pcr_pid;
-    this->continuity_counter = 0x0f;
 
     name = get_stream_name(stream_type);
 }
@@ -378,15 +377,16 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
         return ERROR_TS_PACKET_DECODE;
     }
 
-    if (pkt->continuity_counter != (((int) continuity_counter + 1) & 0x0f)) {
+    // a stream may start with any counter
+    if (last_cc >= 0 && pkt->continuity_counter != ((last_cc + 1) & 0x0f)) {
         sp_error("[%s] ts pid %x, last cc %x, now %x",
                  name,
                  pid,
-                 continuity_counter,
+                 last_cc,
                  pkt->continuity_counter);
         return ERROR_TS_PACKET_CC_CONTINUE;
     }
-    continuity_counter = pkt->continuity_counter;
+    last_cc = pkt->continuity_counter;
 
     if (pkt->payload_unit_start_indicator == 0) {
         return pes_ctx->dump(rd, pkt->payload_unit_start_indicator);
diff --git a/src/avformat/sps_avformat_ts.hpp b/src/avformat/sps_avformat_ts.hpp
index 0165e0a..fed021f 100644
--- a/src/avformat/sps_avformat_ts.hpp
+++ b/src/avformat/sps_avformat_ts.hpp
@@ -454,7 +454,6 @@ class TsPesProgram : public TsProgram {
     PTsPesContext pes_ctx;
     int stream_type;
     int pcr_pid;
-    uint8_t continuity_counter;
 
     const char* name;
 };
-- 
2.43.0


From 5e1185bc627ad4d2200ed96c48044af376b658ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:35 +0000
Subject: [PATCH 041/101] fix: table packets without payload carry no table

---
 src/avformat/sps_avformat_ts.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 5461d30..ab60d92 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -764,7 +764,7 @@ error_t TsContext::decode(uint8_t* p, size_t len) {
     }
 
     // has no payload
-    if ((pkt.adaptation_filed_control & 0x01) == 0 && !program->is_section()) {
+    if ((pkt.adaptation_filed_control & 0x01) == 0) {
         return ret;
     }
 
-- 
2.43.0


From ddac164222b6c820f05119cd4432c0a2b6135c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:00 +0000
Subject: [PATCH 042/101] fix: a table starts where the pointer field says

---
 src/avformat/sps_avformat_ts.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index ab60d92..33c8442 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -62,16 +62,21 @@ TsPsiProgram::TsPsiProgram(int pid, TsContext *ctx) : TsProgram(pid, ctx) {
 
 // work as ffmpeg parse_section_header
 error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
-    auto ret = rd.acquire(8);
+    // no section starts here
+    if (!pkt->payload_unit_start_indicator) {
+        return SUCCESS;
+    }
+
+    pointer_field = rd.read_int8();
+    auto ret = rd.acquire(pointer_field + 8);
 
     if (ret != SUCCESS) {
         sp_error("no enough size ret %d", ret);
         return ret;
     }
 
-    if (pkt->payload_unit_start_indicator) {
-        pointer_field = rd.read_int8();
-    }
+    // the rest of the section before
+    rd.skip_read_bytes(pointer_field);
 
     // section header
     table_id = rd.read_int8();
-- 
2.43.0


From 20fd801fd6d5fbd24ac80cf206e1d0dd67049933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:08 +0000
Subject: [PATCH 043/101] fix: program 0 is the network, not a program

---
 src/avformat/sps_avformat_ts.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 33c8442..7b16eb5 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -150,6 +150,10 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     }
 
     for (auto& pmt : pmt_infos) {
+        // the network pid
+        if (pmt.program_number == 0) {
+            continue;
+        }
         sp_debug("pmt pid %d", pmt.program_map_pid);
         ctx->add_program(pmt.program_map_pid, std::make_shared<TsPmtProgram>(
                 (int) pmt.program_map_pid, ctx
-- 
2.43.0


From ac9149cc9d436e8267302c49ed9fe8c05f97bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:15 +0000
Subject: [PATCH 044/101] fix: private data follows its own flag

---
 src/avformat/sps_avformat_ts.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 7b16eb5..fa1c845 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -859,7 +859,7 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
         splice_countdown = rd.read_int8();
     }
 
-    if (flags.adaptation_field_extension_flag) {
+    if (flags.transport_private_data_flag) {
         transport_private_data_length = rd.read_int8();
 
         if ((ret = rd.acquire(transport_private_data_length)) != SUCCESS) {
-- 
2.43.0


From d6b664c8ab87a3f3f9d181dd9899a3db5c16ebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:16 +0000
Subject: [PATCH 045/101] fix: a publisher may start in the middle of a frame

---
 src/avformat/sps_avformat_ts.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index fa1c845..00ee9ca 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -381,11 +381,6 @@ TsPesProgram::TsPesProgram(int pid, TsContext *ctx,
 error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
     error_t ret = SUCCESS;
 
-    if (pkt->payload_unit_start_indicator == 0 && !pes_ctx->pes_packets) {
-        sp_error("[%s] pes packet is null", name);
-        return ERROR_TS_PACKET_DECODE;
-    }
-
     // a stream may start with any counter
     if (last_cc >= 0 && pkt->continuity_counter != ((last_cc + 1) & 0x0f)) {
         sp_error("[%s] ts pid %x, last cc %x, now %x",
@@ -397,6 +392,7 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
     }
     last_cc = pkt->continuity_counter;
 
+    // the rest of a pes whose start was missed is skipped
     if (pkt->payload_unit_start_indicator == 0) {
         return pes_ctx->dump(rd, pkt->payload_unit_start_indicator);
     }
-- 
2.43.0


From e0cd4e3681507930a86c71f7f0bebe3ba7301398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:39 +0000
Subject: [PATCH 046/101] fix: port of an srt peer in host byte order

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index b1d7769..31a7c4e 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -793,7 +793,7 @@ PSocket StSrtServerSocket::accept() {
         buf[0] = '\0';  // 防止内存写乱
     }
 
-    return std::make_shared<Socket>(srt_socket, std::string(buf), addr.sin_port);
+    return std::make_shared<Socket>(srt_socket, std::string(buf), ntohs(addr.sin_port));
 }
 
 }
-- 
2.43.0


From fe1d2acb8cbb420f5deebefbca7d24ac7a785b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:39 +0000
Subject: [PATCH 047/101] fix: a failed srt accept is not a connection

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 31a7c4e..16f68de 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -340,7 +340,7 @@ SRTSOCKET st_srt_accept(SRTSOCKET fd, struct sockaddr *addr, int *addrlen, utime
             if (ret != SUCCESS) {
                 sp_error("[st_srt_accept]: srt epoll failed, fd:%d, "
                            "ret:%d, err:%s", fd, ret, err.c_str());
-                return ret;
+                return SRT_INVALID_SOCK;
             }
         } else {
             sp_error("[st_srt_accept] failed, fd:%d, ret:%d, err:%s", fd, ret, err.c_str());
@@ -785,8 +785,14 @@ PSocket StSrtServerSocket::accept() {
     char buf[INET6_ADDRSTRLEN];
     memset(buf, 0, sizeof(buf));
 
-    SRTSOCKET c_fd = st_srt_accept(server_fd, (struct sockaddr*) &addr,
-            &addr_len, ST_UTIME_NO_TIMEOUT);
+    SRTSOCKET c_fd = SRT_INVALID_SOCK;
+    while ((c_fd = st_srt_accept(server_fd, (struct sockaddr*) &addr,
+            &addr_len, ST_UTIME_NO_TIMEOUT)) == SRT_INVALID_SOCK) {
+        // such as the peer is gone already, let the others go on
+        sp_error("failed accept srt fd:%d", server_fd);
+        st_usleep(10 * 1000);
+        addr_len = sizeof(addr);
+    }
     auto srt_socket = std::make_shared<StSrtSocket>(c_fd);
 
     if (inet_ntop(addr.sin_family, &addr.sin_addr, buf, sizeof(buf)) == NULL) {
-- 
2.43.0


From ac994fcd542f674d1c42afd8f54cf3985c12133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:52 +0000
Subject: [PATCH 048/101] fix: srt data received before the end of the
 connection is read

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 16f68de..5f3fec8 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -636,8 +636,12 @@ error_t SrtStDispatch::handler()  {
 
                     // error event notify all the socket
                     if (event.events & StSrtEvent::ST_SRT_ERR) {
-                        cnd->err      = err;
-                        cnd->err_msg  = err_msg;
+                        // what was received before the error can still be
+                        // read, and the read reports the error after it
+                        if (!(event.events & cnd->event & ST_SRT_IN)) {
+                            cnd->err      = err;
+                            cnd->err_msg  = err_msg;
+                        }
                         notify = true;
                     } else {
                         if (event.events & cnd->event) {
-- 
2.43.0


From 36f0a7e9e4ae01093ba86f78996a94c414320258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:52 +0000
Subject: [PATCH 049/101] fix: srt read_fully fills the whole buffer

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 5f3fec8..6293981 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -693,7 +693,7 @@ error_t StSrtSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
     int    ret   = SUCCESS;
     while (n < size) {
         size_t nr = 0;
-        ret       = this->read(buf, size-n, nr);
+        ret       = this->read(reinterpret_cast<char*>(buf) + n, size-n, nr);
         if (ret != SUCCESS) {
             if (nread) {
                 *nread = n;
-- 
2.43.0


From 1fda8379f092db1ba0275b37f50286a607c86b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:17 +0000
Subject: [PATCH 050/101] fix: outgoing srt connections have timeouts

---
 src/io/sps_io_socket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/sps_io_socket.cpp b/src/io/sps_io_socket.cpp
index 6c6eb0b..46d23d2 100644
--- a/src/io/sps_io_socket.cpp
+++ b/src/io/sps_io_socket.cpp
@@ -180,9 +180,12 @@ PSocket ClientSocketFactory::create_ss(
                 return nullptr;
             }
 
-            return  std::make_shared<Socket>(
+            auto ss = std::make_shared<Socket>(
                     std::make_shared<StSrtSocket>(fd),
                     ip, port);
+            ss->set_send_timeout(tm);
+            ss->set_recv_timeout(tm);
+            return ss;
         }
 #endif
 
-- 
2.43.0


From 59d223d90c333766261d9e89eb7757537f011333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:03 +0000
Subject: [PATCH 051/101] fix: last parameter of an srt stream id

---
 src/module/srt/sps_srt_server_handler.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 3616603..d43efb1 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -53,8 +53,8 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
     std::list<RequestParam> params;
 
     RequestParam param;
-    while (p != end) {
-        if (*p == ',') {
+    do {
+        if (p == end || *p == ',') {  // the last one needs no ','
             param.value = std::string(start, p-start);
             params.push_back(param);
             start = p+1;
@@ -64,8 +64,7 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
             param.key = std::string(start, p-start);
             start = p+1;
         }
-        ++p;
-    }
+    } while (p++ != end);
 
     std::string url = "";
     std::string mode = "";
-- 
2.43.0


From f236cbc7d63a96176d72aa3d2c7fc828ddff442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:23 +0000
Subject: [PATCH 052/101] fix: raw ts cache starts over with every pes

---
 src/avformat/sps_avformat_packet.cpp | 2 +-
 src/avformat/sps_avformat_tsdec.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_packet.cpp b/src/avformat/sps_avformat_packet.cpp
index 40678cc..c18529f 100644
--- a/src/avformat/sps_avformat_packet.cpp
+++ b/src/avformat/sps_avformat_packet.cpp
@@ -121,7 +121,7 @@ bool AVPacket::is_pmt() {
 }
 
 bool AVPacket::is_payload_unit_start_indicator() {
-    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000)  == 1;
+    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x40000000) != 0;
 }
 
 void AVPacket::debug() {
diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index e2c06b5..4551a91 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -43,7 +43,7 @@ error_t TsCache::on_packet(uint8_t *buf, size_t len,
         TsProgramType ts_type, int payload_unit_start_indicator) {
     auto pkt = AVPacket::create(AV_MESSAGE_DATA,
             ts_type == TS_PROGRAM_PES ? AV_STREAM_PES : AV_STREAM_PSI,
-            AVPacketType{ts_type | (payload_unit_start_indicator >> 31)},
+            AVPacketType{ts_type | (payload_unit_start_indicator << 30)},
             buf,
             len, 0, 0);
     return cache->put(pkt);
-- 
2.43.0


From f6b36584c1585033030fe12db73b99a7a3805ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 053/101] fix: srt:// in front of the host of a stream id

---
 src/module/srt/sps_srt_server_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index d43efb1..904c78f 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -76,7 +76,7 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         }
     }
 
-    if (url.substr(0, 5) != "srt://") {
+    if (url.substr(0, 6) != "srt://") {
         url = "srt://" + url;
     }
 
-- 
2.43.0


From be199367f433900c6f2c4b2950101cc46d129388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 054/101] fix: rtp init_codec fails for aac

---
 src/avformat/sps_avformat_rtpdec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 3324d07..e647106 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -77,6 +77,7 @@ error_t RtpDemuxer::init_codec(int codec_id) {
             break;
         case AVCODEC_AAC:
             rtp_decoder = std::make_shared<AacRtpDecoder>();
+            break;
         default:
             sp_error("not found codec %d", codec_id);
             return ERROR_RTP_PROBE;
-- 
2.43.0


From dae86f63d63bf608b9ed2beea05750aecefa9cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 055/101] fix: rtp payload type read with the marker bit

---
 src/avformat/sps_avformat_rtpdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index e647106..37eeb5b 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -128,7 +128,7 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             continue;
         }
 
-        if (!rtp_decoder && (ret = init_rtp_decode(pay_type)) != SUCCESS) {
+        if (!rtp_decoder && (ret = init_rtp_decode(pay_type & 0x7f)) != SUCCESS) {
             sp_error("[rtp] decoder not init ret %d", ret);
             return ERROR_RTP_PROBE;
         }
-- 
2.43.0


From 6cd68b352e50a9206d3920e2065e10b95e14f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 056/101] fix: short datagram joined with the next rtp packet

---
 src/avformat/sps_avformat_rtpdec.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 37eeb5b..e7ad38d 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -112,14 +112,19 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             return ret;
         }
 
-        RtpPayloadHeader rtp_header;
-        if ((ret = rd->acquire(12)) != SUCCESS) {
+        // one datagram, reading more would join it with the next one
+        if ((ret = rd->acquire(1)) != SUCCESS) {
             return ret;
         }
 
         uint8_t* p   = rd->pos();
         size_t   len = rd->size();
 
+        if (len < 4 || (len < 12 && !is_rtcp(p[1]))) {
+            sp_warn("[rtp] ignore datagram size %lu", len);
+            continue;
+        }
+
         uint8_t pay_type = p[1];
         if (is_rtcp(pay_type)) {
             if ((ret = rtcp_decoder->decode(p, len, pkts)) != SUCCESS) {
-- 
2.43.0


From 71cd1b49ee076cb9c09da49fb6eeee9067f3ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 057/101] fix: rtp header extension length counts words

---
 src/avformat/sps_avformat_rtp.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_rtp.cpp b/src/avformat/sps_avformat_rtp.cpp
index 72476d7..473f844 100644
--- a/src/avformat/sps_avformat_rtp.cpp
+++ b/src/avformat/sps_avformat_rtp.cpp
@@ -100,14 +100,17 @@ error_t RtpPayloadHeader::decode_extension(BitContext &bc) {
         return ret;
     }
 
-    if ((ret = bc.acquire(extension_info.length)) != SUCCESS) {
+    // length counts 32-bit words
+    size_t nb_bytes = extension_info.length * 4;
+
+    if ((ret = bc.acquire(nb_bytes)) != SUCCESS) {
         sp_error("fail require rtp header extension length %u",
                  extension_info.length);
         return ret;
     }
 
-    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_info.length);
-    bc.read_bytes(extension_info.header_extension.get(), extension_info.length);
+    extension_info.header_extension = std::make_unique<uint8_t[]>(nb_bytes);
+    bc.read_bytes(extension_info.header_extension.get(), nb_bytes);
 
     return ret;
 }
-- 
2.43.0


From bddbfaa6327fe4c0539664462ecabbfa328060db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 058/101] fix: rtp padding passed on as payload

---
 src/avformat/sps_avformat_rtpdec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index e7ad38d..2ef6e8a 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -38,6 +38,11 @@ SOFTWARE.
 namespace sps {
 
 error_t IRtpDecoder::decode(uint8_t *buffer, int size, std::list<PAVPacket> &pkts) {
+    // the last byte of the padding counts the padding
+    if (size > 12 && (buffer[0] & 0x20)) {
+        size = std::max(0, size - buffer[size-1]);
+    }
+
     BitContext       bc(buffer, size);
     RtpPayloadHeader rtp_header;
     error_t          ret = SUCCESS;
-- 
2.43.0


From 95676abebdfdfee981f71d6ae680f48dfcd8325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 059/101] fix: rtp stap packets are not split into nalus

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6821c0f..900e10d 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -90,23 +90,24 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
 
-    if (tp == STAP_B) {
-        bc.skip_read_bytes(2);
-    }
+    // indicator, stap-b has a don
+    bc.skip_read_bytes(tp == STAP_B ? 1 + 2 : 1);
 
     while (bc.size() > 0) {
-        int size = bc.read_int8();
+        int size = bc.read_int16();
 
         if ((ret = bc.acquire(size)) != SUCCESS) {
             return ret;
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nbc(bc.pos(), size);
+        ret = dc.decode(tp, header, nbc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] stap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(size);
     }
 
     return ret;
-- 
2.43.0


From 0d7e683dd608a55bf430fd550ecf418f32bddc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 060/101] fix: rtp mtap packets are not split into nalus

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 900e10d..4a7ff79 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -113,24 +113,21 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
-// TODO: fixme dts, pts timestamp
 error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
     int offset_len = tp == MTAP16 ? 2 : 3;
 
-    if (tp == MTAP24) {
-        bc.skip_read_bytes(3); // donb decoding order number base
-    }
+    bc.skip_read_bytes(1 + 2); // indicator, donb decoding order number base
 
     while (bc.size() > 0) {
         //  mtap header
-        //  nalu_size(1) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
-        if ((ret = bc.acquire(1 + 1 + offset_len)) != SUCCESS) {
+        //  nalu_size(2) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
+        if ((ret = bc.acquire(2 + 1 + offset_len)) != SUCCESS) {
             return ret;
         }
 
-        auto nalu_size = bc.read_int8();
+        auto nalu_size = bc.read_int16();
         auto nalu_dond = bc.read_int8();
         auto nalu_ts_offset = offset_len == 3 ? bc.read_int24() : bc.read_int16();
 
@@ -138,12 +135,18 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
             return ret;
         }
 
+        RtpPayloadHeader nalu_header;
+        nalu_header.fix_header = header.fix_header;
+        nalu_header.fix_header.timestamp += nalu_ts_offset;
+
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nbc(bc.pos(), nalu_size);
+        ret = dc.decode(tp, nalu_header, nbc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] mtap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(nalu_size);
     }
     return ret;
 }
-- 
2.43.0


From eb209afea9c2feb9e413229dcae288df2612259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 061/101] fix: rtp nalu with a lost fragment

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 39 +++++++++----------
 .../sps_avformat_rtpdec_h264_hevc.hpp         |  6 +--
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 4a7ff79..ebfc567 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -151,8 +151,8 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
-FuRtpDecoder::FuRtpDecoder(PCharBuffer &pkt, int64_t ts) : pkt(pkt) {
-    this->pre_rtp_timestamp = ts;
+FuRtpDecoder::FuRtpDecoder(PCharBuffer &pkt, uint16_t &next_seq) :
+    pkt(pkt), next_seq(next_seq) {
 }
 
 error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
@@ -171,18 +171,7 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     if (fu.is_start()) {
         sp_debug("fu starting tp %d, indicator %d", tp, fu.indicator.tp);
 
-        if (pkt) {
-            return ERROR_RTP_DECODER_H264;
-            //            NaluRtpDecoder dc;
-            //            RtpPayloadHeader tmp_header;
-            //            tmp_header.fix_header.timestamp = pre_rtp_timestamp;
-            //            BitContext nbc(pkt->pos(), pkt->size());
-            //            ret = dc.decode(tp, tmp_header, nbc, pkts);
-            //            if (ret != SUCCESS) {
-            //                sp_error("[rtp@h264] fu-decode ret %d", ret);
-            //                return ret;
-            //            }
-        }
+        // replaces the nalu whose end was lost
         pkt = std::make_shared<CharBuffer>(RTP_NALU_MAX_LENGTH, 0);
 
         uint8_t nal_header = (int32_t) (fu.indicator.f << 7) | (fu.indicator.nri << 5) | fu.header.tp;
@@ -190,7 +179,12 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         sp_info("fu start nal header %x", nal_header);
         // nalu header append, raw nalu
         pkt->append(&nal_header, 1);
+    } else if (pkt && header.fix_header.sequence_num != next_seq) {
+        sp_warn("[rtp@h264] fu-decode lost fragments, seq %u expect %u",
+                (uint32_t) header.fix_header.sequence_num, next_seq);
+        pkt.reset();
     }
+    next_seq = header.fix_header.sequence_num + 1;
 
     // ingore some pkt because of udp
     if (!pkt) {
@@ -198,6 +192,12 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         return SUCCESS;
     }
 
+    if (pkt->remain() < bc.size()) {
+        sp_error("[rtp@h264] fu-decode nalu too large");
+        pkt.reset();
+        return ERROR_RTP_DECODER_H264;
+    }
+
     // nalu payload
     pkt->append(bc.pos(), bc.size());
     bc.skip_read_bytes(bc.size());
@@ -207,16 +207,15 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         sp_debug("fu ending");
 
         NaluRtpDecoder dc;
-        BitContext nbc(pkt->buffer(), pkt->size());
+        PCharBuffer nalu;
+        nalu.swap(pkt);
+        BitContext nbc(nalu->buffer(), nalu->size());
         ret = dc.decode(tp, header, nbc, pkts);
 
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] fu-decode ret %d", ret);
             return ret;
         }
-
-        // free the pkt
-        pkt.reset();
     }
 
     return ret;
@@ -245,7 +244,7 @@ PIRtpH264Decoder H264RtpDecoder::create_decoder(BitContext& bc, uint8_t nal_unit
             break;
         case FU_A:
         case FU_B:
-            return  std::make_shared<FuRtpDecoder>(pkt, rtp_timestamp);
+            return  std::make_shared<FuRtpDecoder>(pkt, next_seq);
             break;
         default:
             sp_error("fail ingore nalu type %d", nal_unit_type);
@@ -285,8 +284,6 @@ error_t H264RtpDecoder::decode(RtpPayloadHeader& header, BitContext& bc, std::li
         return ret;
     }
 
-    this->rtp_timestamp = header.fix_header.timestamp;
-
     return ret;
 }
 
diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
index aa4cfd4..7c29bdb 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
@@ -130,14 +130,14 @@ class MtapRtpDecoder : public IRtpH264Decoder {
 // fu-a/b decode
 class FuRtpDecoder : public IRtpH264Decoder {
  public:
-    FuRtpDecoder(PCharBuffer& pkt, int64_t rtp_timestamp);
+    FuRtpDecoder(PCharBuffer& pkt, uint16_t& next_seq);
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
 
  private:
     PCharBuffer& pkt;
-    int64_t pre_rtp_timestamp;
+    uint16_t&    next_seq;  // sequence num of the next fragment
 };
 
 class H264RtpDecoder : public IRtpDynamicDecoder {
@@ -149,7 +149,7 @@ class H264RtpDecoder : public IRtpDynamicDecoder {
 
  private:
     PCharBuffer pkt;
-    int64_t rtp_timestamp;
+    uint16_t    next_seq = 0;
 };
 
 }  // namespace sps
-- 
2.43.0


From 4640dfdad4368cee75dba02d00688b7066abe230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 062/101] fix: rtp sequence header without the pps

---
 src/avcodec/sps_avcodec_h264_parser.cpp       | 10 ++++--
 src/avcodec/sps_avcodec_h264_parser.hpp       |  1 +
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 31 ++++++++++++-------
 .../sps_avformat_rtpdec_h264_hevc.hpp         | 19 +++++++++++-
 4 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index f4db663..fd667f7 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -375,8 +375,14 @@ error_t H264AVCodecParser::encode_raw_nalu(AVCodecContext *ctx, uint8_t *in_buf,
         return ret;
     }
 
-    for (auto& n : nalus.nalu_list) {
-        sp_info("=======nalu type %d=============", n.nal_header.nal_unit_type);
+    // sps and pps come one by one, the sequence header has both
+    if (nalus.nalu_list.front().is_sps()) {
+        raw_sps.assign(in_buf, in_buf + in_size);
+        return SUCCESS;
+    }
+
+    if (nalus.nalu_list.front().is_pps() && !raw_sps.empty()) {
+        nalus.append(raw_sps.data(), raw_sps.size());
     }
 
     return nalu_parser->encode_avc(&nalus, pkts);
diff --git a/src/avcodec/sps_avcodec_h264_parser.hpp b/src/avcodec/sps_avcodec_h264_parser.hpp
index cef05df..beaea43 100644
--- a/src/avcodec/sps_avcodec_h264_parser.hpp
+++ b/src/avcodec/sps_avcodec_h264_parser.hpp
@@ -179,6 +179,7 @@ class H264AVCodecParser : public IAVCodecParser {
 
  private:
     PNALUParser nalu_parser;
+    std::vector<uint8_t> raw_sps;  // waits for its pps
 };
 
 }  // namespace sps
diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index ebfc567..df0a9b5 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -62,6 +62,9 @@ bool FuDecoder::is_end() {
     return header.e == 1;
 }
 
+NaluRtpDecoder::NaluRtpDecoder(H264AVCodecParser &parser) : parser(parser) {
+}
+
 error_t NaluRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     // TODO: fixme dts, use clock timestamp
@@ -74,8 +77,7 @@ error_t NaluRtpDecoder::decode(int tp, RtpPayloadHeader &header,
      * objectionable.
      */
     AVCodecContext ctx(get_time() * 90, header.fix_header.timestamp, 90);
-    H264AVCodecParser h264_codec;
-    auto ret = h264_codec.encode_raw_nalu(&ctx, bc.pos(), bc.size(), pkts);
+    auto ret = parser.encode_raw_nalu(&ctx, bc.pos(), bc.size(), pkts);
 
     if (ret != SUCCESS) {
         sp_error("[rtp@h264] nalu-decode ret %d", ret);
@@ -86,6 +88,9 @@ error_t NaluRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
+StapRtpDecoder::StapRtpDecoder(H264AVCodecParser &parser) : parser(parser) {
+}
+
 error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
@@ -100,7 +105,7 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
             return ret;
         }
 
-        NaluRtpDecoder dc;
+        NaluRtpDecoder dc(parser);
         BitContext nbc(bc.pos(), size);
         ret = dc.decode(tp, header, nbc, pkts);
         if (ret != SUCCESS) {
@@ -113,6 +118,9 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
+MtapRtpDecoder::MtapRtpDecoder(H264AVCodecParser &parser) : parser(parser) {
+}
+
 error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
@@ -139,7 +147,7 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         nalu_header.fix_header = header.fix_header;
         nalu_header.fix_header.timestamp += nalu_ts_offset;
 
-        NaluRtpDecoder dc;
+        NaluRtpDecoder dc(parser);
         BitContext nbc(bc.pos(), nalu_size);
         ret = dc.decode(tp, nalu_header, nbc, pkts);
         if (ret != SUCCESS) {
@@ -151,8 +159,9 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
-FuRtpDecoder::FuRtpDecoder(PCharBuffer &pkt, uint16_t &next_seq) :
-    pkt(pkt), next_seq(next_seq) {
+FuRtpDecoder::FuRtpDecoder(PCharBuffer &pkt, uint16_t &next_seq,
+    H264AVCodecParser &parser) :
+    pkt(pkt), next_seq(next_seq), parser(parser) {
 }
 
 error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
@@ -206,7 +215,7 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     if (fu.is_end()) {
         sp_debug("fu ending");
 
-        NaluRtpDecoder dc;
+        NaluRtpDecoder dc(parser);
         PCharBuffer nalu;
         nalu.swap(pkt);
         BitContext nbc(nalu->buffer(), nalu->size());
@@ -230,21 +239,21 @@ PIRtpH264Decoder H264RtpDecoder::create_decoder(BitContext& bc, uint8_t nal_unit
      */
     if (ZERO_RESERVED < nal_unit_type
         && nal_unit_type < STAP_A) {
-        return std::make_shared<NaluRtpDecoder>();
+        return std::make_shared<NaluRtpDecoder>(parser);
     }
 
     switch (nal_unit_type) {
         case STAP_B:
         case STAP_A:
-            return  std::make_shared<StapRtpDecoder>();
+            return  std::make_shared<StapRtpDecoder>(parser);
             break;
         case MTAP16:
         case MTAP24:
-            return  std::make_shared<MtapRtpDecoder>();
+            return  std::make_shared<MtapRtpDecoder>(parser);
             break;
         case FU_A:
         case FU_B:
-            return  std::make_shared<FuRtpDecoder>(pkt, next_seq);
+            return  std::make_shared<FuRtpDecoder>(pkt, next_seq, parser);
             break;
         default:
             sp_error("fail ingore nalu type %d", nal_unit_type);
diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
index 7c29bdb..1ddff20 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
@@ -108,29 +108,44 @@ typedef std::shared_ptr<IRtpH264Decoder> PIRtpH264Decoder;
 
 // raw nalu decode
 class NaluRtpDecoder : public IRtpH264Decoder {
+ public:
+    explicit NaluRtpDecoder(H264AVCodecParser& parser);
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
             BitContext& bc, std::list<PAVPacket>& pkts) override;
+
+ private:
+    H264AVCodecParser& parser;
 };
 
 // stap-a/b decode
 class StapRtpDecoder : public IRtpH264Decoder {
+ public:
+    explicit StapRtpDecoder(H264AVCodecParser& parser);
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
+
+ private:
+    H264AVCodecParser& parser;
 };
 
 // mtap-a/b decode
 class MtapRtpDecoder : public IRtpH264Decoder {
+ public:
+    explicit MtapRtpDecoder(H264AVCodecParser& parser);
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
+
+ private:
+    H264AVCodecParser& parser;
 };
 
 // fu-a/b decode
 class FuRtpDecoder : public IRtpH264Decoder {
  public:
-    FuRtpDecoder(PCharBuffer& pkt, uint16_t& next_seq);
+    FuRtpDecoder(PCharBuffer& pkt, uint16_t& next_seq, H264AVCodecParser& parser);
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
@@ -138,6 +153,7 @@ class FuRtpDecoder : public IRtpH264Decoder {
  private:
     PCharBuffer& pkt;
     uint16_t&    next_seq;  // sequence num of the next fragment
+    H264AVCodecParser& parser;
 };
 
 class H264RtpDecoder : public IRtpDynamicDecoder {
@@ -150,6 +166,7 @@ class H264RtpDecoder : public IRtpDynamicDecoder {
  private:
     PCharBuffer pkt;
     uint16_t    next_seq = 0;
+    H264AVCodecParser parser;
 };
 
 }  // namespace sps
-- 
2.43.0


From 20dca65a58f117ad811c7661578d31392fda869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 063/101] fix: ts demuxing never goes on after a lost packet

---
 src/avformat/sps_avformat_ts.cpp | 3 ++-
 src/avformat/sps_avformat_ts.hpp | 2 --
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 00ee9ca..c251a25 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -388,7 +388,8 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
                  pid,
                  last_cc,
                  pkt->continuity_counter);
-        return ERROR_TS_PACKET_CC_CONTINUE;
+        // the pes that lost packets is dropped, the next one is whole again
+        pes_ctx->reset();
     }
     last_cc = pkt->continuity_counter;
 
diff --git a/src/avformat/sps_avformat_ts.hpp b/src/avformat/sps_avformat_ts.hpp
index fed021f..b3d2f96 100644
--- a/src/avformat/sps_avformat_ts.hpp
+++ b/src/avformat/sps_avformat_ts.hpp
@@ -266,8 +266,6 @@ class TsPesContext {
  public:
     void init(int sz);
     error_t flush();
-
- private:
     void reset();
 
  public:
-- 
2.43.0


From 19e080a0c416badf10501b8dc281ce6e046d968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 064/101] fix: rtcp sdes decoded past the end of the list

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index e34f73c..795876e 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -155,7 +155,7 @@ error_t RtcpSDESDecoder::decode(RtcpHead &h, BitContext &bc) {
 
     for (int i = 0; i < h.cflag; ++i) {
         sdes.push_back(sd);
-        auto it = sdes.end();
+        auto it = std::prev(sdes.end());
 
         if ((ret = it->decode(bc)) != SUCCESS) {
             sp_error("[rtp@rtcp] sdes decode %dth fail num %d, ret %d", i, (int) h.cflag, ret);
-- 
2.43.0


From 0ffbd589ae90459afefb4cedaf9495a4762b069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 065/101] fix: rtcp report block read without its ssrc

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 3 ++-
 src/avformat/sps_avformat_rtpdec_rtcp.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index 795876e..b81e8f4 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -52,12 +52,13 @@ std::string IRtcpDecoder::debug() {
 }
 
 error_t RtcpSRReportBlock::decode(BitContext &bc) {
-    error_t ret = bc.acquire(20);
+    error_t ret = bc.acquire(SIZE);
 
     if (ret != SUCCESS) {
         return ret;
     }
 
+    ssrc          = bc.read_int32();
     fraction_lost = bc.read_int8();
     cum_number_pkt_lost = bc.read_int24();
     extend_high_seq_num_recv = bc.read_int32();
diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.hpp b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
index 52f2263..1ec72c3 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.hpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
@@ -53,10 +53,11 @@ typedef std::shared_ptr<IRtcpDecoder> PIRtcpDecoder;
 
 class RtcpSRReportBlock {
  public:
-    static const int SIZE = 20;
+    static const int SIZE = 24;
  public:
     error_t decode(BitContext& bc);
 
+    uint32_t ssrc;
     uint32_t fraction_lost : 8;
     uint32_t cum_number_pkt_lost : 24;  // 24 bit
     uint32_t extend_high_seq_num_recv;
-- 
2.43.0


From 3fa5c19c39de30f4880b1949b55c2d9cd1e4695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 066/101] fix: rtcp sdes chunks are more than one item

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 34 +++++++++++++++++------
 src/avformat/sps_avformat_rtpdec_rtcp.hpp |  4 +--
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index b81e8f4..3f83716 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -129,23 +129,41 @@ std::string RtcpRRDecoder::debug() {
 }
 
 error_t RtcpSDES::decode(BitContext &bc) {
-    error_t ret = bc.acquire(6);
+    error_t ret = bc.acquire(8);
 
     if (ret != SUCCESS) {
         return ret;
     }
 
+    uint8_t* start = bc.pos();
+
     ssrc = bc.read_int32();
-    item_type = bc.read_int8();
-    item_length = bc.read_int8();
 
-    if ((ret = bc.acquire(item_length)) != SUCCESS) {
-        return ret;
+    // items end with a zero type, keep the first of them
+    while ((ret = bc.acquire(1)) == SUCCESS) {
+        uint8_t type = bc.read_int8();
+        if (type == 0) {
+            break;
+        }
+
+        uint8_t length = bc.read_int8();
+        if ((ret = bc.acquire(length)) != SUCCESS) {
+            return ret;
+        }
+
+        if (!item_value) {
+            item_type   = type;
+            item_length = length;
+            item_value  = CharBuffer::create_buf(length);
+            item_value->append(bc.pos(), length);
+        }
+        bc.skip_read_bytes(length);
     }
 
-    item_value = CharBuffer::create_buf(item_length);
-    item_value->append(bc.pos(), item_length);
-    bc.skip_read_bytes(item_length);
+    // chunks are aligned to 32 bits
+    while (bc.size() > 0 && (bc.pos() - start) % 4 != 0) {
+        bc.skip_read_bytes(1);
+    }
 
     return ret;
 }
diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.hpp b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
index 1ec72c3..39a2fda 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.hpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
@@ -98,8 +98,8 @@ class RtcpSDES {
     error_t decode(BitContext& bc);
  public:
     uint32_t ssrc;
-    uint8_t  item_type;
-    uint8_t  item_length;
+    uint8_t  item_type   = 0;
+    uint8_t  item_length = 0;
     PCharBuffer item_value;
 };
 
-- 
2.43.0


From 6085d4f5d59d2994362bf7aac379056dda5caffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:23 +0000
Subject: [PATCH 067/101] fix: header of an empty nalu read for the log

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index fd667f7..25dcf58 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -371,7 +371,7 @@ error_t H264AVCodecParser::encode_raw_nalu(AVCodecContext *ctx, uint8_t *in_buf,
     error_t ret = nalus.append(in_buf, in_size);
 
     if (ret != SUCCESS) {
-        sp_error("[h264] append nalu fail ret %d nalu_header %x", ret, in_buf[0]);
+        sp_error("[h264] append nalu fail ret %d size %d", ret, in_size);
         return ret;
     }
 
-- 
2.43.0


From 16aa9c6a32339414ba9fa9fb0950d220ea511890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:54 +0000
Subject: [PATCH 068/101] fix: log messages verbatim instead of as a printf
 format

Text from requests and configuration reached printf as the format string:
directives in it were expanded, and could read or write memory.
---
 src/log/sps_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/sps_log.cpp b/src/log/sps_log.cpp
index f33fc66..3de97b1 100644
--- a/src/log/sps_log.cpp
+++ b/src/log/sps_log.cpp
@@ -46,7 +46,7 @@ void ConsoleLog::printf(LOG_LEVEL lev, const char *fmt, ...) {
     va_start(args, fmt);
     vsnprintf(buf + len, sizeof(buf) - len, fmt, args);
     va_end(args);
-    ::printf(buf);
+    fputs(buf, stdout);
 }
 
 ILog* default_log = new ConsoleLog();
-- 
2.43.0


From c700d03eaeb853e0c2cd3ca97f7cae010507eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:20 +0000
Subject: [PATCH 069/101] fix: ssl failures of one connection end others
 through the shared error queue

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index ca44441..5583572 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -30,6 +30,8 @@ SOFTWARE.
 
 #ifdef OPENSSL_ENABLED
 
+#include <openssl/err.h>
+
 namespace sps {
 
 error_t st_tcp_ssl_connect(const std::string& server, int port,
@@ -344,6 +346,7 @@ error_t StSSLSocket::handshake_util_read() {
 }
 
 error_t StSSLSocket::do_handshake(bool reading) {
+    ERR_clear_error();
     int n = SSL_do_handshake(ssl);
 
     if (n == 1) {
@@ -417,7 +420,8 @@ error_t StSSLSocket::read(void* buf, size_t size, size_t& nread) {
     error_t ret = SUCCESS;
 
     do {
-        // read decode buffer
+        // read decode buffer, errors left by others are not ours
+        ERR_clear_error();
         int n  = SSL_read(ssl, buf, size);
         int r2 = BIO_ctrl_pending(rbio);
         int r3 = SSL_is_init_finished(ssl);
@@ -472,6 +476,7 @@ error_t StSSLSocket::write(void* buf, size_t size) {
 
     do {
         // write for encode to wbio
+        ERR_clear_error();
         int n = SSL_write(ssl, (char*)buf + nwrite, size - nwrite);
 
         if (n <= 0) {
-- 
2.43.0


From 15f17a0b05397c35b675e8c87666b2d805267051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:20 +0000
Subject: [PATCH 070/101] fix: ssl read_fully overwrites what it read before

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 5583572..2c1d700 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -402,7 +402,7 @@ error_t StSSLSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
 
     while (n < size) {
         size_t len = 0;
-        if ((ret = read(buf, size-n, len)) != SUCCESS) {
+        if ((ret = read((char*) buf + n, size-n, len)) != SUCCESS) {
             break;
         }
 
-- 
2.43.0


From 15736905c3acfa764bf794e790ba3491cdc99fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:38 +0000
Subject: [PATCH 071/101] fix: accepted ssl sockets do not know their own
 address

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 2c1d700..6e44eb2 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -559,7 +559,7 @@ error_t StSSLAcceptor::handler() {
         }
 
         ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
-                sock->get_peer_port()));
+                sock->get_peer_port(), sock->get_self_ip(), sock->get_self_port()));
 
     } while (true);
 
-- 
2.43.0


From 345428f3edb7904691969e8368d4e62af0c5e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:30 +0000
Subject: [PATCH 072/101] fix: ssl certificate of the server is never used

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 6e44eb2..769d879 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -210,7 +210,10 @@ error_t StSSLSocket::accept() {
     // TODO: imp sni
     if (cert_searcher) {
         SSL_CTX_set_tlsext_servername_callback(ctx, StSSLSocket::ssl_servername_callback);
-    } else {
+    }
+
+    // the one of the server, for clients that name no host with its own
+    if (!cert_searcher || !config.crt_file.empty()) {
         if ((ret = do_ssl_verify(config)) != SUCCESS) {
             return ret;
         }
-- 
2.43.0


From 38c082fde64fa29ccf2f367ddbf186592600c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 073/101] fix: one client's ssl handshake blocks every other
 client

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 48 +++++++++++++++++++++++------
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 19 ++++++++++++
 2 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 769d879..144f0a0 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -34,6 +34,9 @@ SOFTWARE.
 
 namespace sps {
 
+// longest wait for the next bytes of a client's handshake
+static const utime_t SSL_HANDSHAKE_TIMEOUT = 10 * 1000 * 1000;
+
 error_t st_tcp_ssl_connect(const std::string& server, int port,
                            utime_t tm, PSocket& io) {
     // TODO: IMPL
@@ -553,22 +556,49 @@ error_t StSSLAcceptor::handler() {
 
     do {
         auto sock = ssl.ssock->accept();
-        auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
+        auto handshake = std::make_shared<StSSLHandshake>(ssl, sock);
 
-        // TODO: fixme with threads startup
-        if ((ret = ssl_sock->init()) != SUCCESS) {
-            sp_error("ssl accept ret %d", ret);
-            continue;
+        ssl.handshakes.insert(handshake);
+        if ((ret = ICoFactory::get_instance().start(handshake)) != SUCCESS) {
+            sp_error("fail start ssl handshake ret %d", ret);
+            ssl.handshakes.erase(handshake);
         }
-
-        ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
-                sock->get_peer_port(), sock->get_self_ip(), sock->get_self_port()));
-
     } while (true);
 
     return SUCCESS;
 }
 
+StSSLHandshake::StSSLHandshake(StSSLServerSocket &ssl, PSocket sock) : ssl(ssl) {
+    this->sock = std::move(sock);
+}
+
+error_t StSSLHandshake::handler() {
+    error_t ret = SUCCESS;
+    utime_t rtm = sock->get_recv_timeout();
+    utime_t stm = sock->get_send_timeout();
+
+    sock->set_recv_timeout(SSL_HANDSHAKE_TIMEOUT);
+    sock->set_send_timeout(SSL_HANDSHAKE_TIMEOUT);
+
+    auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
+
+    if ((ret = ssl_sock->init()) != SUCCESS) {
+        sp_error("ssl accept ret %d", ret);
+        return ret;
+    }
+
+    sock->set_recv_timeout(rtm);
+    sock->set_send_timeout(stm);
+
+    ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
+            sock->get_peer_port(), sock->get_self_ip(), sock->get_self_port()));
+    return ret;
+}
+
+void StSSLHandshake::on_stop() {
+    ssl.handshakes.erase(shared_from_this());
+}
+
 }
 
 #endif
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 3182731..5043306 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -31,6 +31,7 @@ SOFTWARE.
 #include <openssl/ssl.h>
 
 #include <memory>
+#include <set>
 
 #include <sps_sys_co.hpp>
 #include <sps_sys_sync.hpp>
@@ -122,12 +123,14 @@ class StSSLSocket : public IReaderWriter {
 };
 
 class StSSLAcceptor;
+class StSSLHandshake;
 /**
  * ssl server wrapped
  */
 class StSSLServerSocket : public IServerSocket {
  public:
     friend class StSSLAcceptor;
+    friend class StSSLHandshake;
  public:
     StSSLServerSocket(PIServerSocket ssock);
 
@@ -146,6 +149,7 @@ class StSSLServerSocket : public IServerSocket {
     PCondition                      condition;
     std::list<PSocket>              ready_sockets;
     std::shared_ptr<StSSLAcceptor>  acceptor;
+    std::set<PICoHandler>           handshakes;
     SSLConfig                       config;
     PISSLCertSearch                 cert_searcher;
 };
@@ -162,6 +166,21 @@ class StSSLAcceptor : public ICoHandler {
     StSSLServerSocket& ssl;
 };
 
+// tls handshake of one client, so that no client waits for another one's
+class StSSLHandshake : public ICoHandler,
+                       public std::enable_shared_from_this<StSSLHandshake> {
+ public:
+    StSSLHandshake(StSSLServerSocket& ssl, PSocket sock);
+
+ public:
+    error_t handler() override;
+    void    on_stop() override;
+
+ private:
+    StSSLServerSocket& ssl;
+    PSocket sock;
+};
+
 }  // namespace sps
 
 #endif
-- 
2.43.0


From 80ef6e119a62df66024a06bef725fc4b5c60a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:56 +0000
Subject: [PATCH 074/101] fix: what a ssl client sends right behind its
 handshake is dropped

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 144f0a0..a8eccc3 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -331,12 +331,6 @@ error_t StSSLSocket::handshake_util_read() {
 
     sp_info("write ssl handshake(%d) %.*s", n, n, data);
 
-    // for next read
-    if ((ssl_err = BIO_reset(rbio)) != 1) {
-        sp_error("fail reset rio mem for %d", ssl_err);
-        return ERROR_SSL_HANDSHAKE;
-    }
-
     if ((tmp_ret = io->write(data, n)) != SUCCESS) {
         sp_error("fail io read ret %d", tmp_ret);
         return tmp_ret;
-- 
2.43.0


From 65e6a20755a2e57790ff00025a427954aa22067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 075/101] fix: the proxy forwards the body of a request to the
 origin

---
 src/io/url/sps_io_url.cpp                     |  4 ++
 src/io/url/sps_io_url.hpp                     |  3 ++
 src/io/url/sps_io_url_http.cpp                | 53 +++++++++++++++++--
 src/io/url/sps_io_url_http.hpp                |  3 ++
 .../http/sps_http_proxy_phase_handler.cpp     |  3 ++
 5 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index 7ace2eb..8950df3 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -209,6 +209,10 @@ int64_t RequestUrl::get_content_length() {
     return atoll(cl.c_str());
 }
 
+bool RequestUrl::has_body() {
+    return !get_header("Transfer-Encoding").empty() || get_content_length() > 0;
+}
+
 utime_t RequestUrl::get_timeout() {
     return tm;
 }
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index 209be11..78034d6 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -37,6 +37,7 @@ SOFTWARE.
 #include <memory>
 #include <string>
 
+#include <sps_io.hpp>
 #include <sps_util_typedef.hpp>
 
 namespace sps {
@@ -80,6 +81,7 @@ class RequestUrl {
  public:
     bool is_chunked();
     int64_t get_content_length();
+    bool has_body();
 
  public:
     utime_t      get_timeout();
@@ -104,6 +106,7 @@ class RequestUrl {
  public:
     utime_t tm = 10 * 1000 * 1000;
     std::string ip;
+    PIReader body;  // sent behind the head
 };
 
 typedef std::shared_ptr<RequestUrl> PRequestUrl;
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 15aefbd..4b94a2e 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -45,14 +45,23 @@ std::string http_request(const std::string& method, const std::string& url,
     ss  << method << " " << url << " HTTP/1.1" << CRCN
         << "Host: " << host << CRCN;
 
+    bool framed = false;  // the headers tell the size of the body
     if (headers) {
-        for (auto& h : *headers)
-            if (strcasecmp(h.key.c_str(), "Host") != 0)
-                ss << h.key << ": " << h.value << CRCN;
+        for (auto& h : *headers) {
+            if (strcasecmp(h.key.c_str(), "Host") == 0) {
+                continue;
+            }
+
+            framed = framed || strcasecmp(h.key.c_str(), "Content-Length") == 0 ||
+                     strcasecmp(h.key.c_str(), "Transfer-Encoding") == 0;
+            ss << h.key << ": " << h.value << CRCN;
+        }
     }
 
     ss << "Accept: */" << CRCN;
-    ss << "Content-Length: " << data.size() << CRCN;
+    if (!framed) {
+        ss << "Content-Length: " << data.size() << CRCN;
+    }
     ss << CRCN;
 
     return ss.str();
@@ -82,6 +91,12 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ret;
     }
 
+    if (url->body && (ret = write_body(socket, url)) != SUCCESS) {
+        sp_error("failed write body %d %s:%d.", ret,
+                 socket->get_peer_ip().c_str(), socket->get_peer_port());
+        return ret;
+    }
+
     sp_debug("success open %s:%d -> request %s.", ip.c_str(),
               url->get_port(), req.c_str());
 
@@ -103,6 +118,36 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
     return SUCCESS;
 }
 
+error_t HttpUrlProtocol::write_body(PSocket& socket, PRequestUrl& url) {
+    error_t ret     = SUCCESS;
+    bool    chunked = url->is_chunked();
+    char    buf[1024];
+    size_t  nr      = 0;
+
+    while (ret == SUCCESS &&
+           (ret = url->body->read(buf, sizeof(buf), nr)) == SUCCESS) {
+        if (nr == 0) {
+            continue;
+        }
+
+        if (!chunked) {
+            ret = socket->write(buf, nr);
+            continue;
+        }
+
+        std::stringstream ss;
+        ss << std::hex << nr << CRCN << std::string(buf, nr) << CRCN;
+        auto data = ss.str();
+        ret       = socket->write((char*) data.c_str(), data.size());
+    }
+
+    if (ret != ERROR_HTTP_RES_EOF) {
+        return ret;
+    }
+
+    return chunked ? socket->write((void*) "0" CRCN CRCN, 5) : SUCCESS;
+}
+
 error_t HttpUrlProtocol::read(void *buf, size_t size, size_t& nr) {
     if (eof()) {
         return ERROR_HTTP_RES_EOF;
diff --git a/src/io/url/sps_io_url_http.hpp b/src/io/url/sps_io_url_http.hpp
index 093f34c..bea82d3 100644
--- a/src/io/url/sps_io_url_http.hpp
+++ b/src/io/url/sps_io_url_http.hpp
@@ -54,6 +54,9 @@ class HttpUrlProtocol : public IURLProtocol {
  public:
     PResponse response() override;
 
+ private:
+    error_t write_body(PSocket& socket, PRequestUrl& url);
+
  private:
     PHttpResponse rsp;
     size_t  nread = 0;
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index 153a53f..de25018 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -52,6 +52,9 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
                               c.socket, ctx.req->ip, ctx.req->port,
                               ctx.req->is_chunked(), ctx.req->get_content_length());
     ctx.host->get_proxy_info(proxy_req->ip, proxy_req->port);
+    if (ctx.req->has_body()) {
+        proxy_req->body    = sock;
+    }
 
     auto     url_protocol  = protocols.create(proxy_req);
     if (!url_protocol) {
-- 
2.43.0


From 48fd6a2ee625d11b3b5817b11019229e2f766e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 076/101] fix: a refused request with a body ends the
 connection, its body is not taken for requests

---
 src/module/http/sps_http_phase_handler.cpp        | 6 ++++++
 src/module/http/sps_http_stream_phase_handler.cpp | 5 +++--
 src/sps_error.hpp                                 | 1 +
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 63ad815..318a67f 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -77,6 +77,12 @@ error_t Http404PhaseHandler::handler(IConnection& ctx) {
     auto ret = http_socket->write_header();
 
     sp_trace("Response http 404 %d", ret);
+
+    // the body of the request stays unread, no next request can be told from it
+    auto host_ctx = dynamic_cast<HostContext*> (ctx.get_context().get());
+    if (host_ctx->req->has_body()) {
+        return ERROR_HTTP_REQ_BODY_UNREAD;
+    }
     return SPS_PHASE_SUCCESS_NO_CONTINUE;
 }
 
diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1f7fe96..1965e27 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -55,14 +55,15 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
-        return ret;
+        return ERROR_HTTP_REQ_BODY_UNREAD;  // what was to be published
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
         rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
                  ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 404, ret);
-        return ret;
+        return (ret == SUCCESS && ctx.req->has_body()) ?
+                    ERROR_HTTP_REQ_BODY_UNREAD : ret;
     }
 
     return ret;
diff --git a/src/sps_error.hpp b/src/sps_error.hpp
index de6a167..0e5c1f1 100644
--- a/src/sps_error.hpp
+++ b/src/sps_error.hpp
@@ -107,6 +107,7 @@ SOFTWARE.
 #define ERROR_HTTP_CHUNKED_LENGTH_LARGE     1707
 #define ERROR_HTTP_CHUNKED_INVALID          1708
 #define ERROR_HTTP_HAS_SOURCE               1709
+#define ERROR_HTTP_REQ_BODY_UNREAD          1710
 
 // HOST 错误
 #define ERROR_HOST_NOT_EXISTS               1800
-- 
2.43.0


From 21f0b0c4e26dd927d77368ab8a73789c2a08a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 077/101] fix: a request whose transfer encoding is not just
 chunked is refused

---
 src/module/http/sps_http_phase_handler.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 318a67f..d4bb91f 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -27,6 +27,8 @@ SOFTWARE.
 #include <log/sps_log.hpp>
 #include <sps_io_url_protocol.hpp>
 #include <memory>
+#include <string>
+#include <vector>
 
 namespace sps {
 
@@ -45,6 +47,17 @@ error_t HttpParsePhaseHandler::handler(IConnection &c) {
     }
 
     auto req  = http_parser->get_request();
+
+    // the end of the body must be known for sure, else the next request is not
+    std::vector<std::string> te;
+    http_parser->get_ctx()->contains("Transfer-Encoding", &te);
+    if (!te.empty() && (te.size() > 1 || !req->is_chunked() ||
+                        req->get_content_length() >= 0)) {
+        sp_error("unsupported transfer encoding %s, content-length %lld",
+                 te[0].c_str(), (long long) req->get_content_length());
+        return ERROR_HTTP_HEADER_PARSE;
+    }
+
     auto ctx = std::make_shared<HttpContext>(req);
                                                                                  ;
     c.set_context(ctx);
-- 
2.43.0


From d72bfa021aea8531be7ba8b750bd5b641f7f7738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 078/101] fix: an interim response of the origin is taken for
 its response

---
 src/io/url/sps_io_url_http.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 4b94a2e..ee70e5f 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -100,14 +100,18 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
     sp_debug("success open %s:%d -> request %s.", ip.c_str(),
               url->get_port(), req.c_str());
 
-    HttpParser parser;
-    if ((ret = parser.parse_header(socket, HttpType::RESPONSE)) <= 0) {
-        sp_error("failed parser %d %s:%d, %s.", ret,
-                 socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
-        return ret;
-    }
+    PHttpResponse http_rsp;
+    do {
+        HttpParser parser;
+        if ((ret = parser.parse_header(socket, HttpType::RESPONSE)) <= 0) {
+            sp_error("failed parser %d %s:%d, %s.", ret,
+                     socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
+            return ret;
+        }
 
-    PHttpResponse http_rsp = rsp = parser.get_response();
+        http_rsp = rsp = parser.get_response();
+        // interim responses (1xx) come before the response itself
+    } while (http_rsp->status_code / 100 == 1 && http_rsp->status_code != 101);
 
     // responses that never have a body, whatever their headers say
     is_eof = url->method == "HEAD" || http_rsp->status_code == 204 ||
-- 
2.43.0


From 1f6ee1f762a985fa183244aa444dcc51e14518f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 079/101] fix: a header name with white space is refused

---
 src/module/http/sps_http_phase_handler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index d4bb91f..dcea3e0 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -48,6 +48,13 @@ error_t HttpParsePhaseHandler::handler(IConnection &c) {
 
     auto req  = http_parser->get_request();
 
+    for (auto& h : req->headers) {
+        if (h.key.find_first_of(" \t") != std::string::npos) {
+            sp_error("invalid header name %s", h.key.c_str());
+            return ERROR_HTTP_HEADER_PARSE;
+        }
+    }
+
     // the end of the body must be known for sure, else the next request is not
     std::vector<std::string> te;
     http_parser->get_ctx()->contains("Transfer-Encoding", &te);
-- 
2.43.0


From e7ea5b3d086cccc7cd3c4a39c5eabd8bea6d6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:22 +0000
Subject: [PATCH 080/101] fix: a frame with or without crc repeated the aac
 sequence header

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index bafc263..31bcbf0 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -55,12 +55,10 @@ AdtsFixedHeader::AdtsFixedHeader() {
 }
 
 bool AdtsFixedHeader::operator==(const AdtsFixedHeader &header) {
-    return protection_absent == header.protection_absent &&
-            profile == header.profile &&
+    // what the sequence header consists of
+    return profile == header.profile &&
             sampling_frequency_index == header.sampling_frequency_index &&
-                    channel_configuration == header.channel_configuration &&
-                    original == header.original &&
-                    home == header.home;
+                    channel_configuration == header.channel_configuration;
 }
 
 error_t AdtsFixedHeader::decode(BitContext *bc) {
-- 
2.43.0


From a1223023a480958fca6bae895ae8a760b5eaff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:01 +0000
Subject: [PATCH 081/101] fix: datagrams of all udp clients reach one session

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index f5d42e6..a71994f 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -230,6 +230,7 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
         addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
     }
 
+    addr2string(&from_addr, peer_ip, peer_port);
     nread = n;
     return SUCCESS;
 }
-- 
2.43.0


From e645c46e62a2f1ba8ae78203292bdea54b8b820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:01 +0000
Subject: [PATCH 082/101] fix: udp sockets do not write to the address of their
 peer

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index a71994f..690e535 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -112,6 +112,9 @@ StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port,
     peer_addr.sin_family        =   AF_INET;
     peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
     peer_addr.sin_port          =   htons(peer_port);
+    if (!peer_ip.empty() && inet_pton(AF_INET, peer_ip.c_str(), &peer_addr.sin_addr) != 1) {
+        sp_error("illegal udp peer ip %s", peer_ip.c_str());
+    }
 
     int opt = 1;
     setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
-- 
2.43.0


From 2353a8da8adcd4bb5b1430f046f04cb2023643c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:04 +0000
Subject: [PATCH 083/101] fix: the own address of udp sessions is garbage

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index 690e535..7a88fac 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -227,10 +227,15 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
         }
         struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
         // at this point, peeraddr is the source sockaddr
-        // pi->ipi_spec_dst is the destination in_addr
-        // pi->ipi_addr is the receiving interface in_addr
-
-        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
+        // pi->ipi_addr is the destination in_addr of the datagram
+        struct sockaddr_in dst_addr;
+        socklen_t          dst_len = sizeof(dst_addr);
+
+        memset(&dst_addr, 0, sizeof(dst_addr));
+        getsockname(st_netfd_fileno(fd->get_fd()), (struct sockaddr*) &dst_addr, &dst_len);
+        dst_addr.sin_family = AF_INET;
+        dst_addr.sin_addr   = pi->ipi_addr;
+        addr2string(&dst_addr, dst_ip, dst_port);
     }
 
     addr2string(&from_addr, peer_ip, peer_port);
-- 
2.43.0


From c58c7948002521c67731a1a885f74d85c1222ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:04 +0000
Subject: [PATCH 084/101] fix: a udp server whose receive fails spins without
 yielding

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index 7a88fac..78d010b 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -31,6 +31,9 @@ SOFTWARE.
 
 namespace sps {
 
+// wait before a failed receive is retried, 10ms
+static const utime_t RECV_RETRY_INTERVAL = 10 * 1000;
+
 error_t UdpFd::create_fd(PUdpFd &fd) {
     st_netfd_t net = nullptr;
     int sock = socket(AF_INET, SOCK_DGRAM, 0);
@@ -419,7 +422,8 @@ error_t StUdpServerSocket::handler() {
         error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
         if (ret != SUCCESS){
             sp_error("fail read ret %d", ret);
-            continue;;
+            st_usleep(RECV_RETRY_INTERVAL);
+            continue;
         }
 
         PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
-- 
2.43.0


From 92105bb2c20c2be6d08e774843b3c9097b45ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 085/101] fix: the type of an rtmp publish is not read

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index ff78553..43edea9 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -401,7 +401,7 @@ error_t PublishRtmpPacket::invoke_from(AMFObject &amf_object) {
         return ret;
     }
 
-    if (amf_object.o_num > 5) {
+    if (amf_object.o_num > 4) {
         AVal stream;
         if ((ret = get_amf_prop(amf_object.o_props + 4,
                 &stream)) != SUCCESS) {
-- 
2.43.0


From 09fd49ba623faf6fd03a84767e91552ef868acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 086/101] fix: an rtmp connect without an object reads an
 uninitialised one

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index 43edea9..b635f42 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -334,6 +334,12 @@ error_t ConnectRtmpPacket::invoke_from(AMFObject &amf_object) {
         return ERROR_RTMP_AMF_CMD_CONVERT;
     }
 
+    // null has no object
+    if (amf_object.o_props[2].p_type != AMF_OBJECT) {
+        sp_error("amf connect has no object");
+        return ERROR_RTMP_AMF_CMD_CONVERT;
+    }
+
     if ((ret = get_amf_string(object, "app", &app)) != SUCCESS) {
         sp_error("amf connect has empty app");
         return ret;
-- 
2.43.0


From 60efc9c1e0e9ac54fbe34c7b010cb80bbea57962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 087/101] fix: rtmp values are refused depending on an
 uninitialised member

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index b635f42..358dd6a 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -38,7 +38,7 @@ namespace sps {
 
 
 error_t get_amf_prop(AMFObjectProperty *prop, AMFObject **obj) {
-    if (prop->p_UTCoffset == AMF_INVALID) {
+    if (prop->p_type == AMF_INVALID) {
         return ERROR_RTMP_AMF_PROP_NOT_FOUND;
     }
 
@@ -50,7 +50,7 @@ error_t get_amf_prop(AMFObjectProperty *prop, AMFObject **obj) {
 }
 
 error_t get_amf_prop(AMFObjectProperty *prop, AVal *val) {
-    if (prop->p_UTCoffset == AMF_INVALID) {
+    if (prop->p_type == AMF_INVALID) {
         return ERROR_RTMP_AMF_PROP_NOT_FOUND;
     }
 
@@ -62,7 +62,7 @@ error_t get_amf_prop(AMFObjectProperty *prop, AVal *val) {
 }
 
 error_t get_amf_prop(AMFObjectProperty *prop, double *num) {
-    if (prop->p_UTCoffset == AMF_INVALID) {
+    if (prop->p_type == AMF_INVALID) {
         return ERROR_RTMP_AMF_PROP_NOT_FOUND;
     }
 
-- 
2.43.0


From eeed9243d7a50cd873832e945140c527ec5229b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 088/101] fix: amf3 commands of rtmp are not understood

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index 358dd6a..26497b1 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -184,8 +184,10 @@ error_t AmfRtmpPacket::decode(WrapRtmpPacket &pkt) {
 
     sp_debug("amf type: %d", pkt.packet.m_packetType);
 
-    if (RtmpPacketDecoder::is_amf3_command(pkt.packet.m_packetType)) {
-        ret = AMF3_Decode(&amf_object, packet.m_body, packet.m_nBodySize, 0);
+    // an amf3 command is one format byte before amf0 values
+    if (RtmpPacketDecoder::is_amf3_command(packet.m_packetType)) {
+        ret = packet.m_nBodySize > 0 ? AMF_Decode(&amf_object,
+                packet.m_body + 1, packet.m_nBodySize - 1, 0) : -1;
     } else {
         ret = AMF_Decode(&amf_object, packet.m_body, packet.m_nBodySize, 0);
     }
-- 
2.43.0


From dbdfa449b72994b05d0f4aaec3454e7f06e0a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 089/101] fix: the log of a short rtmp command reads beyond it

---
 src/avformat/sps_avformat_librtmp_packet.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp_packet.cpp b/src/avformat/sps_avformat_librtmp_packet.cpp
index 26497b1..6433229 100644
--- a/src/avformat/sps_avformat_librtmp_packet.cpp
+++ b/src/avformat/sps_avformat_librtmp_packet.cpp
@@ -194,9 +194,8 @@ error_t AmfRtmpPacket::decode(WrapRtmpPacket &pkt) {
 
     if (ret < 0) {
         ret = ERROR_RTMP_AMF_DECODE;
-        sp_error("decode amf failed type: %d,  %.*s, %X, %X",
-                 packet.m_packetType, packet.m_nBodySize, packet.m_body,
-                 *packet.m_body, *(packet.m_body + 1));
+        sp_error("decode amf failed type: %d, size: %u",
+                 packet.m_packetType, packet.m_nBodySize);
         return ret;
     }
 
-- 
2.43.0


From b83012d996672273b4927b757461a77aec190d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:31 +0000
Subject: [PATCH 090/101] fix: rtmp media does not continue the connection that
 was negotiated

---
 src/module/rtmp/sps_rtmp_server.cpp         | 4 ++--
 src/module/rtmp/sps_rtmp_server.hpp         | 4 ++--
 src/module/rtmp/sps_rtmp_server_handler.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/module/rtmp/sps_rtmp_server.cpp b/src/module/rtmp/sps_rtmp_server.cpp
index 964723b..4b95083 100644
--- a/src/module/rtmp/sps_rtmp_server.cpp
+++ b/src/module/rtmp/sps_rtmp_server.cpp
@@ -29,8 +29,8 @@ SOFTWARE.
 
 namespace sps {
 
-RtmpContext::RtmpContext(PRequestUrl r, PSocket io) : HostContext(std::move(r)) {
-    hk = std::make_shared<RtmpHook>(std::move(io));
+RtmpContext::RtmpContext(PRequestUrl r, PRtmpHook hook) : HostContext(std::move(r)) {
+    hk = std::move(hook);
     publishing = false;
     playing    = false;
 }
diff --git a/src/module/rtmp/sps_rtmp_server.hpp b/src/module/rtmp/sps_rtmp_server.hpp
index f584a2f..a8545d0 100644
--- a/src/module/rtmp/sps_rtmp_server.hpp
+++ b/src/module/rtmp/sps_rtmp_server.hpp
@@ -39,10 +39,10 @@ typedef std::shared_ptr<ServerBase> PRtmpServer;
 
 class RtmpContext : public HostContext {
  public:
-    explicit RtmpContext(PRequestUrl r, PSocket io);
+    explicit RtmpContext(PRequestUrl r, PRtmpHook hook);
 
  public:
-    std::shared_ptr<RtmpHook> hk;
+    PRtmpHook hk;
     bool publishing;
     bool playing;
 };
diff --git a/src/module/rtmp/sps_rtmp_server_handler.cpp b/src/module/rtmp/sps_rtmp_server_handler.cpp
index 957f46d..46f5362 100644
--- a/src/module/rtmp/sps_rtmp_server_handler.cpp
+++ b/src/module/rtmp/sps_rtmp_server_handler.cpp
@@ -48,9 +48,9 @@ RtmpPrepareHandler::RtmpPrepareHandler()
 }
 
 error_t RtmpPrepareHandler::handler(IConnection &c) {
-    auto     hook =  std::make_shared<RtmpHook>(c.socket);;
+    auto     hook = std::make_shared<RtmpHook>(c.socket);
     error_t  ret  = SUCCESS;
-    auto     ctx  = std::make_shared<RtmpContext>(nullptr, c.socket);
+    auto     ctx  = std::make_shared<RtmpContext>(nullptr, hook);
     RtmpServerHandshake shk(hook.get());
 
     // handshake
-- 
2.43.0


From 9eb45dd0dd51f825e1530b9796d4a299f88a03fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:49 +0000
Subject: [PATCH 091/101] fix: rtmp players receive wrong composition times

---
 src/avformat/sps_avformat_rtmpenc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_rtmpenc.cpp b/src/avformat/sps_avformat_rtmpenc.cpp
index b7d9652..a90eb5f 100644
--- a/src/avformat/sps_avformat_rtmpenc.cpp
+++ b/src/avformat/sps_avformat_rtmpenc.cpp
@@ -120,9 +120,9 @@ error_t RtmpAVMuxer::write_packet(PAVPacket& buffer) {
             // if cts < 0 convert to int32_t
             cts         = (cts + 0xff800000) ^ 0xff800000;
 
-            *(--pkt.m_body) = cts & 0x0f;
-            *(--pkt.m_body) = cts & 0xf0;
-            *(--pkt.m_body) = cts & 0x0f00;
+            *(--pkt.m_body) = cts & 0xff;
+            *(--pkt.m_body) = (cts >> 8) & 0xff;
+            *(--pkt.m_body) = (cts >> 16) & 0xff;
 
             *(--pkt.m_body) = buffer->is_video_sequence_header() ? 0 : 1;
             pkt.m_nBodySize += 4;
-- 
2.43.0


From 3e0e6012507a71e57175c4fcf7bf2df8dc940fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:53 +0000
Subject: [PATCH 092/101] fix: a failed rtmp read spins as if it had succeeded

---
 src/avformat/sps_avformat_librtmp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp.cpp b/src/avformat/sps_avformat_librtmp.cpp
index ececd13..19c9f6c 100644
--- a/src/avformat/sps_avformat_librtmp.cpp
+++ b/src/avformat/sps_avformat_librtmp.cpp
@@ -526,7 +526,8 @@ error_t RtmpHook::recv_packet(WrapRtmpPacket &pkt) {
 
     do {
         if (RTMP_ReadPacket(rtmp, &packet) != TRUE) {
-            ret           = error;
+            // librtmp may have sent something since the failure
+            ret           = error != SUCCESS ? error : ERROR_RTMP_NOT_CONNECT;
             packet.m_body = nullptr;
             sp_error("rtmp recv failed ret: %d", ret);
             return ret;
@@ -557,7 +558,7 @@ error_t RtmpHook::send_packet(WrapRtmpPacket &packet, bool queue) {
 error_t RtmpHook::send_packet(RTMPPacket &pkt, bool queue) {
     if (RTMP_SendPacket(rtmp, &pkt, queue ? 1 : 0) != TRUE) {
         sp_error("send packet failed error %d", error);
-        return error;
+        return error != SUCCESS ? error : ERROR_RTMP_NOT_CONNECT;
     }
     return on_send_packet(pkt);
 }
-- 
2.43.0


From d0328f2bf6d49e5625aeb42f564ff5289d638091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:28 +0000
Subject: [PATCH 093/101] fix: a short rtmp bandwidth message ends the server

---
 src/avformat/sps_avformat_librtmp.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp.cpp b/src/avformat/sps_avformat_librtmp.cpp
index 19c9f6c..38aab31 100644
--- a/src/avformat/sps_avformat_librtmp.cpp
+++ b/src/avformat/sps_avformat_librtmp.cpp
@@ -169,11 +169,15 @@ error_t RtmpHook::on_recv_packet(RTMPPacket &packet) {
             break;
         }
         case RTMP_PACKET_TYPE_SERVER_BW:
-            rtmp->m_nServerBW = (int) AMF_DecodeInt32(packet.m_body);
+            if (packet.m_nBodySize >= 4) {
+                rtmp->m_nServerBW = (int) AMF_DecodeInt32(packet.m_body);
+            }
             break;
         case RTMP_PACKET_TYPE_CLIENT_BW:
-            rtmp->m_nClientBW = (int) AMF_DecodeInt32(packet.m_body);
-            next_acked = rtmp->m_nClientBW;
+            if (packet.m_nBodySize >= 4) {
+                rtmp->m_nClientBW = (int) AMF_DecodeInt32(packet.m_body);
+                next_acked = rtmp->m_nClientBW;
+            }
             break;
     }
 
-- 
2.43.0


From b51a1d600a997c15d23bfa00a264143bee0d918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:08 +0000
Subject: [PATCH 094/101] fix: an rtmp audio message of one byte is read beyond
 its end

---
 src/avformat/sps_avformat_rtmpdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtmpdec.cpp b/src/avformat/sps_avformat_rtmpdec.cpp
index f4eb84c..3fcdbcf 100644
--- a/src/avformat/sps_avformat_rtmpdec.cpp
+++ b/src/avformat/sps_avformat_rtmpdec.cpp
@@ -135,7 +135,7 @@ error_t RtmpDemuxer::read_packet(PAVPacket& buffer) {
                                       dts, pts, flag, codecid);
             break;
         } else if (packet.is_audio()) {
-            if ((ret = stream.acquire(1)) != SUCCESS) {
+            if ((ret = stream.acquire(2)) != SUCCESS) {
                 sp_error("fail too short rtmp audio %lu, ret %d",
                           packet.size(), ret);
                 return ret;
-- 
2.43.0


From 74a83d46deb63dfce670fc751732b3ef707f44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 095/101] fix: the answer to an rtmp ping lacks its timestamp

---
 src/avformat/sps_avformat_librtmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_librtmp.cpp b/src/avformat/sps_avformat_librtmp.cpp
index 38aab31..d33396e 100644
--- a/src/avformat/sps_avformat_librtmp.cpp
+++ b/src/avformat/sps_avformat_librtmp.cpp
@@ -413,8 +413,8 @@ error_t RtmpHook::send_connect_result(double txn) {
     return ret;
 }
 
-error_t RtmpHook::send_pong(uint32_t /** stream_id **/) {
-    if (RTMP_SendCtrl(rtmp, 7, 0, 0) == FALSE) {
+error_t RtmpHook::send_pong(uint32_t timestamp) {
+    if (RTMP_SendCtrl(rtmp, 7, timestamp, 0) == FALSE) {
         sp_error("fail send rtmp pong ret %d", error);
         return error;
     }
-- 
2.43.0


From 8df31c614b33751a8bec88db3a3ed9ce67162fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:26 +0000
Subject: [PATCH 096/101] fix: an srt wait that times out leaves an entry
 behind

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 6293981..2d3b142 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -555,8 +555,14 @@ int SrtStDispatch::st_srt_epoll(SRTSOCKET fd, StSrtEvent event, utime_t timeout,
     conditions[fd].insert(cnd);
     ret = st_cond_timedwait(cnd->cond, timeout);
 
-    if (conditions.count(fd))
-        conditions[fd].erase(cnd);
+    it = conditions.find(fd);
+    if (it != conditions.end()) {
+        it->second.erase(cnd);
+
+        if (it->second.empty()) {
+            conditions.erase(it);
+        }
+    }
 
     int old_evt = get_exits_evt(fd);
 
-- 
2.43.0


From 4bdbea340337654c4fe8eaa01a3f9d7b721fdead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:44 +0000
Subject: [PATCH 097/101] fix: an rtmp message that breaks off in its first
 chunk stays allocated

---
 src/avformat/sps_avformat_librtmp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avformat/sps_avformat_librtmp.cpp b/src/avformat/sps_avformat_librtmp.cpp
index d33396e..81da80d 100644
--- a/src/avformat/sps_avformat_librtmp.cpp
+++ b/src/avformat/sps_avformat_librtmp.cpp
@@ -532,6 +532,10 @@ error_t RtmpHook::recv_packet(WrapRtmpPacket &pkt) {
         if (RTMP_ReadPacket(rtmp, &packet) != TRUE) {
             // librtmp may have sent something since the failure
             ret           = error != SUCCESS ? error : ERROR_RTMP_NOT_CONNECT;
+            if (packet.m_nBytesRead == 0) {
+                // nobody else knows of a message cut off in its first chunk
+                RTMPPacket_Free(&packet);
+            }
             packet.m_body = nullptr;
             sp_error("rtmp recv failed ret: %d", ret);
             return ret;
-- 
2.43.0


From 9ec17111dfd552527ed27341d9a137fdbacd8d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:51 +0000
Subject: [PATCH 098/101] fix: the url an rtmp client connects to is freed
 while librtmp uses it

---
 src/avformat/sps_avformat_librtmp.cpp | 3 ++-
 src/avformat/sps_avformat_librtmp.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_librtmp.cpp b/src/avformat/sps_avformat_librtmp.cpp
index 81da80d..93f7337 100644
--- a/src/avformat/sps_avformat_librtmp.cpp
+++ b/src/avformat/sps_avformat_librtmp.cpp
@@ -575,7 +575,8 @@ error_t RtmpHook::client_connect(const std::string &url,
         const std::string &params, bool publish) {
     error_t ret = SUCCESS;
 
-    if (RTMP_SetupURL(rtmp, (char *) (url + " " + params).c_str()) == FALSE) {
+    link_url = url + " " + params;
+    if (RTMP_SetupURL(rtmp, &link_url[0]) == FALSE) {
         sp_error("fail set url %s.", url.c_str());
         return ERROR_RTMP_CONNECT;
     }
diff --git a/src/avformat/sps_avformat_librtmp.hpp b/src/avformat/sps_avformat_librtmp.hpp
index 42bacf8..d62931e 100644
--- a/src/avformat/sps_avformat_librtmp.hpp
+++ b/src/avformat/sps_avformat_librtmp.hpp
@@ -275,6 +275,7 @@ class RtmpHook {
     RTMP_HOOK hook{0};
     error_t error;
     int transaction_id = 0;
+    std::string link_url;  // librtmp keeps pointers to it
     int next_acked;
     int buffer_ms      = 2000;
 
-- 
2.43.0


From d7153b847b8e423dcc5bedbe0508ac3ee700da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:51 +0000
Subject: [PATCH 099/101] fix: an edge crashes once its rtmp origin answered

---
 src/module/stream/sps_stream_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index 2ae027b..6558739 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -58,7 +58,7 @@ error_t StreamEdge::handler() {
     }
 
     ret = io->open(url, TCP);
-    if (ret != SUCCESS || !io->response()->success()) {
+    if (ret != SUCCESS || (io->response() && !io->response()->success())) {
         sp_error("Fail Init upstream %s-%s-%s %d %s", url->get_host(), url->get_url(), url->get_params(),
                  ret, io->response() ? io->response()->error().c_str() : "");
         goto fail;
-- 
2.43.0


From 076736eeb7f652bb307e6e85c1e0226923622786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:29 +0000
Subject: [PATCH 100/101] fix: an edge finds no decoder for what its rtmp
 origin sends

---
 src/module/stream/sps_stream_edge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index 6558739..2d77ac6 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -155,6 +155,10 @@ error_t StreamEdgeEnter::start_edge(const std::string& key, PHostModule& host, P
         goto fail;
     }
 
+    if (proxy_req->schema == "rtmp") {
+        proxy_req->ext = "-";  // the format is the protocol's
+    }
+
     proxy_req->set_ip_port(ip, port);
     edge  = std::make_shared<StreamEdge>(key, proxy_req);
     ret   = edge->start();
-- 
2.43.0


From 540baf2eac01ac0d582cb3ad5f80d5fa421bbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 101/101] fix: rtmp players receive the end of a video sequence
 as media

---
 src/avformat/sps_avformat_rtmpenc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtmpenc.cpp b/src/avformat/sps_avformat_rtmpenc.cpp
index a90eb5f..4223771 100644
--- a/src/avformat/sps_avformat_rtmpenc.cpp
+++ b/src/avformat/sps_avformat_rtmpenc.cpp
@@ -91,7 +91,7 @@ error_t RtmpAVMuxer::write_packet(PAVPacket& buffer) {
         }
 
         // 0. sequence header 1. aac data
-        *--pkt.m_body  = buffer->is_audio_sequence_header() ? 0 : 1;
+        *--pkt.m_body  = buffer->pkt_type.pkt_type;
         *--pkt.m_body = buffer->flags;
         pkt.m_nBodySize += 2;
 
@@ -124,7 +124,7 @@ error_t RtmpAVMuxer::write_packet(PAVPacket& buffer) {
             *(--pkt.m_body) = (cts >> 8) & 0xff;
             *(--pkt.m_body) = (cts >> 16) & 0xff;
 
-            *(--pkt.m_body) = buffer->is_video_sequence_header() ? 0 : 1;
+            *(--pkt.m_body) = buffer->pkt_type.pkt_type;
             pkt.m_nBodySize += 4;
         }
 
-- 
2.43.0

