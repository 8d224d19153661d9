From 89d34c8226bef0e01a340531363de47dae3b4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:40 +0000
Subject: [PATCH 01/21] verif: hook (cfg octane_verif) to serve one connection
 over an in-memory stream

---
 src/lib.rs    |  3 +++
 src/server.rs |  5 +++++
 src/verif.rs  | 55 +++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 09b92ff..2bb1b3b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,6 +95,9 @@ pub(crate) mod util;
 // re exports
 #[cfg(feature = "extended_queries")]
 pub use crate::query::QueryValue;
+#[cfg(octane_verif)]
+#[doc(hidden)]
+pub use crate::server::verif;
 pub use octane_http::StatusCode;
 pub use octane_macros::main;
 pub use octane_macros::test;
diff --git a/src/server.rs b/src/server.rs
index 7fb9528..addabb7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -223,6 +223,11 @@ impl Octane {
     }
 }
 
+// verification hook, see src/verif.rs
+#[cfg(octane_verif)]
+#[path = "verif.rs"]
+pub mod verif;
+
 default!(Octane);
 
 impl Route for Octane {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..d4f9284
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,55 @@
+//! Verification hook, compiled only with `--cfg octane_verif`.
+//!
+//! Lets an out-of-tree harness drive one connection through the real
+//! request/response pipeline over an in-memory stream.
+use super::Octane;
+use crate::tls::AsMutStream;
+use std::error::Error;
+use std::io;
+use std::pin::Pin;
+use std::sync::Arc;
+use std::task::{Context, Poll};
+use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
+use tokio::net::TcpStream;
+
+struct Stream<S>(S);
+
+impl<S: AsyncRead + Unpin> AsyncRead for Stream<S> {
+    fn poll_read(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut ReadBuf<'_>,
+    ) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.0).poll_read(cx, buf)
+    }
+}
+
+impl<S: AsyncWrite + Unpin> AsyncWrite for Stream<S> {
+    fn poll_write(
+        mut self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &[u8],
+    ) -> Poll<io::Result<usize>> {
+        Pin::new(&mut self.0).poll_write(cx, buf)
+    }
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.0).poll_flush(cx)
+    }
+    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Pin::new(&mut self.0).poll_shutdown(cx)
+    }
+}
+
+impl<S> AsMutStream for Stream<S> {
+    fn stream_mut(&mut self) -> &mut TcpStream {
+        unreachable!("an in-memory stream has no socket")
+    }
+}
+
+/// Serve one connection of `server` over `stream`
+pub async fn serve<S>(stream: S, server: Arc<Octane>) -> Result<(), Box<dyn Error>>
+where
+    S: AsyncRead + AsyncWrite + Unpin,
+{
+    Octane::serve(Stream(stream), server).await
+}
-- 
2.43.0


From 2f24cee317acfccf75fa437de02a5038e81ef5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 02/21] fix: answer 400 to a malformed request line or header
 instead of panicking

---
 src/request.rs |  7 ++-----
 src/server.rs  | 11 +++++++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index dbbc713..0a11317 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -87,12 +87,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = match PathBuf::parse(toks.next()?) {
-            Ok(val) => val,
-            Err(e) => panic!("{:?}", e),
-        };
+        let path = PathBuf::parse(toks.next()?).ok()?;
         let version = toks.next()?;
-        let (first, ver) = version.split_at(5);
+        let (first, ver) = (version.get(..5)?, version.get(5..)?);
         let enum_ver = match ver {
             "1.1" => HttpVersion::Http11,
             "1.0" => HttpVersion::Http10,
diff --git a/src/server.rs b/src/server.rs
index addabb7..cb329c4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -172,8 +172,15 @@ impl Octane {
         let mut data = Vec::new();
         let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data).await;
         if let Ok((raw_headers, raw_request_line, body_remainder, reader_left)) = parsed {
-            let headers = Headers::parse(raw_headers).unwrap();
-            let request_line = RequestLine::parse(raw_request_line).unwrap();
+            let (headers, request_line) = match (
+                Headers::parse(raw_headers),
+                RequestLine::parse(raw_request_line),
+            ) {
+                (Some(headers), Some(request_line)) => (headers, request_line),
+                _ => {
+                    declare_error!(writer, StatusCode::BadRequest);
+                }
+            };
             if let Some(request) = Request::from_raw(
                 &headers,
                 request_line,
-- 
2.43.0


From df4da892d7004ac03c3e4f87916f79fe96cb4534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 03/21] fix: ignore a malformed cookie sent by the client
 instead of panicking

---
 src/cookie.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cookie.rs b/src/cookie.rs
index 201316e..922b52a 100644
--- a/src/cookie.rs
+++ b/src/cookie.rs
@@ -71,9 +71,9 @@ impl<'a> Cookie<'a> {
         let mut cookies_vec = Vec::new();
         let header_cookies = header.split("; ");
         for tok in header_cookies {
-            cookies_vec.push(Cookie {
-                cookie: CookieRs::parse(tok).unwrap(),
-            });
+            if let Ok(cookie) = CookieRs::parse(tok) {
+                cookies_vec.push(Cookie { cookie });
+            }
         }
         cookies_vec
     }
-- 
2.43.0


From 0b4bb23fa3c31dcd38d4d9348d493c0241a21d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 04/21] fix: do not panic when reading the request from the
 connection fails

---
 octane_http/src/http1x/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 59703d7..5f63ffd 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -24,7 +24,10 @@ where
         let mut buf: [u8; 512] = [0; 512];
 
         loop {
-            let read = instance.raw_request.reader.read(&mut buf).await.unwrap();
+            let read = match instance.raw_request.reader.read(&mut buf).await {
+                Ok(read) => read,
+                Err(_) => return Err(StatusCode::BadRequest),
+            };
             if read == 0 {
                 return Err(StatusCode::BadRequest);
             }
-- 
2.43.0


From ca39ea66d48ed2b81692a551cf66b97bdad8aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 05/21] fix: answer 400 when the body ends before
 Content-Length bytes instead of panicking

---
 src/request.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 0a11317..e41165b 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -304,11 +304,17 @@ impl<'a> Request<'a> {
             .unwrap_or(0);
         if body_len > 0 {
             if body_remainder.len() < body_len {
-                let mut temp: Vec<u8> = vec![0; body_len - body_remainder.len()];
-                reader.read_exact(&mut temp[..]).await.ok().unwrap();
-                *body_vec = Vec::with_capacity(body_len);
+                // grow as the data arrives, the client may announce any length
                 body_vec.extend_from_slice(body_remainder);
-                body_vec.extend_from_slice(&temp[..]);
+                let left = body_len - body_remainder.len();
+                (&mut reader)
+                    .take(left as u64)
+                    .read_to_end(body_vec)
+                    .await
+                    .ok()?;
+                if body_vec.len() < body_len {
+                    return None;
+                }
                 body = &body_vec[..];
             } else {
                 body = body_remainder;
-- 
2.43.0


From 8fd1f74eba07aa1756cab87ff375410c867bfd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 06/21] fix: limit the request body to Content-Length bytes

---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index e41165b..dedf98d 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -317,7 +317,7 @@ impl<'a> Request<'a> {
                 }
                 body = &body_vec[..];
             } else {
-                body = body_remainder;
+                body = &body_remainder[..body_len];
             }
         } else {
             body = &[];
-- 
2.43.0


From afd82a4b65326063049e4dfe616bec98c6218ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 07/21] fix: accept a request without headers

---
 octane_http/src/http1x/mod.rs | 6 +++++-
 src/request.rs                | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 5f63ffd..9a5b7d3 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -76,7 +76,11 @@ pub fn find_in_slice<T: Eq>(haystack: &[T], needle: &[T]) -> Option<usize> {
 
 // Helper function for extracting some headers
 pub(crate) fn parse_without_body(data: &str) -> Option<(&str, String)> {
-    let n = data.find("\r\n")?;
+    let n = match data.find("\r\n") {
+        Some(n) => n,
+        // a request without any header
+        None => return Some((data, String::new())),
+    };
     let (line, rest) = data.split_at(n);
     let request_line = line;
     let headers = (&rest[2..]).to_owned();
diff --git a/src/request.rs b/src/request.rs
index dedf98d..245878a 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -206,6 +206,9 @@ impl Headers {
         #[cfg(feature = "raw_headers")]
         let mut raw_headers: Vec<Header> = Vec::new();
         for tok in toks {
+            if tok.is_empty() {
+                continue;
+            }
             let parsed = Header::parse(match str::from_utf8(tok) {
                 Ok(s) => s.to_owned(),
                 Err(_) => return None,
-- 
2.43.0


From 9a5260c47df3821b2ead4e111f886f496fad4002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 08/21] fix: abbreviate September as Sep in the Date header

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index e066d0f..6239c2a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -10,7 +10,7 @@ pub const CRLF: &str = "\r\n";
 pub const B_CRLF: &[u8] = b"\r\n";
 pub const WEEKS: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
 pub const MONTHS: [&str; 12] = [
-    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec",
+    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
 ];
 
 // constants for time.rs
-- 
2.43.0


From 7065008e396766dcc73da680ead59cec8a318a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 09/21] fix: treat U+001F as a control character

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index b308960..a054686 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -438,7 +438,7 @@ deref!(MatchedPath<'a, T>, T, data);
 deref!(PathBuf, Vec<String>, chunks);
 
 pub fn is_ctl(c: char) -> bool {
-    c < '\x1f' || c == '\x7f'
+    c <= '\x1f' || c == '\x7f'
 }
 
 fn get_second<T>(tup: (PathChunk, PathNode<T>)) -> PathNode<T> {
-- 
2.43.0


From 837f72c9a86ff52fe7c2fa6655ebf5191679d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 10/21] fix: the version number of HTTP/2.0 is 2.0

---
 octane_http/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octane_http/src/lib.rs b/octane_http/src/lib.rs
index 0187819..a9fa5f6 100644
--- a/octane_http/src/lib.rs
+++ b/octane_http/src/lib.rs
@@ -43,7 +43,7 @@ impl ToString for HttpVersion {
             Self::Http11 => "1.1",
             Self::Http10 => "1.0",
             Self::Http09 => "0.9",
-            Self::Http02 => "0.2",
+            Self::Http02 => "2.0",
             _ => "",
         }
         .to_owned()
-- 
2.43.0


From 0331107d31d6ef67c384cf51c8f6799e37dd3e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 11/21] fix: hand over the bytes read from a file to the
 response

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 9fadf91..3cf3608 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -64,7 +64,8 @@ impl<T: Read + Unpin> Deref for AsyncReader<T> {
 
 impl<T: Read + Unpin> AsyncRead for AsyncReader<T> {
     fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, buf: &mut ReadBuf) -> Poll<Result<()>> {
-        self.reader.read(buf.initialized_mut())?;
+        let read = self.reader.read(buf.initialize_unfilled())?;
+        buf.advance(read);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From bd50ff3b4beffeaf22e628d52c3b53d509b82258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 12/21] fix: send the Content-Length of a file

---
 src/responder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/responder.rs b/src/responder.rs
index 851bf8c..17ade1e 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -227,6 +227,7 @@ impl<'a> Response<'a> {
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
         self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        self.default_headers();
         Ok(Some(()))
     }
 
-- 
2.43.0


From 0f8cbca000c24dc263a4aa4e771dc637e7b7938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 13/21] fix: end the last Set-Cookie line with CRLF

---
 src/responder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 17ade1e..fe28853 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -506,9 +506,8 @@ impl<'a> Response<'a> {
             &self
                 .cookies
                 .iter()
-                .map(|cookie| cookie.serialise())
-                .collect::<Vec<String>>()
-                .join(CRLF),
+                .map(|cookie| format!("{}{}", cookie.serialise(), CRLF))
+                .collect::<String>(),
         );
         headers_str
     }
-- 
2.43.0


From 93cc9a93ee15cb3e4e8c394842d73ee2c93e8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:20 +0000
Subject: [PATCH 14/21] fix: with_ssl_config replaces the port too

---
 src/config.rs | 3 +--
 src/server.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index c961d2e..aff153c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -250,8 +250,7 @@ impl Config for OctaneConfig {
     }
 
     fn with_ssl_config(&mut self, ssl_conf: Ssl) {
-        self.ssl.key = ssl_conf.key;
-        self.ssl.cert = ssl_conf.cert;
+        self.ssl = ssl_conf;
     }
     fn ssl(&mut self, port: u16) -> &mut Ssl {
         self.ssl.port = port;
diff --git a/src/server.rs b/src/server.rs
index cb329c4..1728bb1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -274,8 +274,7 @@ impl Config for Octane {
         self.settings.keep_alive = Some(duration);
     }
     fn with_ssl_config(&mut self, ssl_conf: Ssl) {
-        self.settings.ssl.key = ssl_conf.key;
-        self.settings.ssl.cert = ssl_conf.cert;
+        self.settings.ssl = ssl_conf;
     }
     fn ssl(&mut self, port: u16) -> &mut Ssl {
         self.settings.ssl.port = port;
-- 
2.43.0


From 6ed229b7831fba30815ccbb2e8b403f0bacdeaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:44 +0000
Subject: [PATCH 15/21] fix: separate the query string from the path of the
 request

---
 src/request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 245878a..28dfc88 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -77,6 +77,8 @@ pub struct RequestLine {
     pub method: RequestMethod,
     /// The path of the request
     pub path: PathBuf,
+    // The query string, without the leading `?`
+    pub(crate) query: String,
     /// Http version of the request
     pub version: HttpVersion,
 }
@@ -87,7 +89,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = PathBuf::parse(toks.next()?).ok()?;
+        let mut target = toks.next()?.splitn(2, '?');
+        let path = PathBuf::parse(target.next()?).ok()?;
+        let query = target.next().unwrap_or("").to_owned();
         let version = toks.next()?;
         let (first, ver) = (version.get(..5)?, version.get(5..)?);
         let enum_ver = match ver {
@@ -116,6 +120,7 @@ impl RequestLine {
         Some(Self {
             method: request_method,
             path,
+            query,
             version: enum_ver,
         })
     }
@@ -342,14 +347,14 @@ impl<'a> Request<'a> {
     /// }));
     /// ```
     pub fn get_query(&self) -> HashMap<String, String> {
-        parse_query(&self.request_line.path.to_string())
+        parse_query(&self.request_line.query)
     }
 
     /// Parse the extended query and return the key value pairs in the form
     /// of an HashMap. See [`QueryValue`](../enum.QueryValue.html)
     #[cfg(feature = "extended_queries")]
     pub fn get_extended_query(&self) -> HashMap<String, QueryValue> {
-        parse_extended_query(&self.request_line.path.to_string())
+        parse_extended_query(&self.request_line.query)
     }
 }
 
-- 
2.43.0


From 36bc1392e61de8416fd4678ae08efaf90a5ec8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:44 +0000
Subject: [PATCH 16/21] fix: decode percent escapes in a query as UTF-8

---
 src/query.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index af56205..8d2d947 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -1,39 +1,39 @@
 use std::collections::HashMap;
 
 pub fn unescape_hex(string: &str) -> String {
-    let mut ret = "".to_owned();
+    let mut ret: Vec<u8> = Vec::new();
     let mut chars = string.chars();
     let mut peekable = DoublePeek::new(&mut chars);
     while let Some(val) = peekable.next() {
         if val != '%' {
-            ret.push(val);
+            ret.extend_from_slice(val.encode_utf8(&mut [0; 4]).as_bytes());
         } else {
             peekable.unpeek = true;
             let c1 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let c2 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let (h1, h2) = (from_hex(c1), from_hex(c2));
             if h1.is_none() || h2.is_none() {
-                ret.push('%');
+                ret.push(b'%');
                 continue;
             }
-            ret.push((h1.unwrap() * 16 + h2.unwrap()) as char);
+            ret.push(h1.unwrap() * 16 + h2.unwrap());
             peekable.next();
             peekable.next();
         }
     }
-    ret
+    String::from_utf8_lossy(&ret).into_owned()
 }
 
 pub struct DoublePeek<'a, T>
-- 
2.43.0


From c6b0d8bd663d9aceb77955d2cb65d8239353d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:14 +0000
Subject: [PATCH 17/21] fix: the MIME type of .bin files is
 application/octet-stream

---
 src/file_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_handler.rs b/src/file_handler.rs
index e57a2e7..23435c8 100644
--- a/src/file_handler.rs
+++ b/src/file_handler.rs
@@ -78,7 +78,7 @@ impl FileHandler {
             "abw" => "application/x-abiword",
             "arc" => "application/x-freearc",
             "azw" => "application/vnd.amazon.ebook",
-            "bin" => "applcation/octet-stream",
+            "bin" => "application/octet-stream",
             "bz" => "application/x-bzip",
             "bz2" => "application/x-bzip2",
             "csh" => "application/x-csh",
-- 
2.43.0


From 610ba75211ad0cc380d64bdd92a9e1987440f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:10 +0000
Subject: [PATCH 18/21] fix: a shorter path does not start with a longer one

---
 src/path.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/path.rs b/src/path.rs
index a054686..ee10d19 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -59,6 +59,9 @@ impl PathBuf {
     }
 
     pub fn check_starts_with(&self, other: &PathBuf) -> bool {
+        if self.len() < other.len() {
+            return false;
+        }
         for (a, b) in self.iter().zip(other.iter()) {
             if a != b {
                 return false;
-- 
2.43.0


From 567fcf5a406231d01aca7cd6ade1adacc0386146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:05 +0000
Subject: [PATCH 19/21] fix: strip blanks after a header value too

Optional whitespace surrounds a field value on both sides (RFC 7230 3.2).
Only the leading blanks were stripped, so that for example
"Content-Length: 5 " was not understood and the body was lost.
---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 28dfc88..8d9364b 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -154,7 +154,7 @@ impl Header {
                 TOKEN_CHARS.get(&c)?;
             }
         }
-        let value = toks.next()?.trim_start_matches(|c| c == SP || c == HT);
+        let value = toks.next()?.trim_matches(|c| c == SP || c == HT);
         if cfg!(feature = "faithful") && value.chars().any(is_ctl) {
             return None;
         }
-- 
2.43.0


From 6da64fbc8aad0776432fa03ea759e6ab96e28ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:21 +0000
Subject: [PATCH 20/21] fix: set SO_REUSEADDR before binding

It has an effect only on a later bind, so a server restarted while
connections of the previous one linger in TIME_WAIT could not bind.
---
 src/server_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index 7a0a5fb..4631f6f 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -22,9 +22,9 @@ impl ServerBuilder {
         let socket = Socket::new(Domain::ipv4(), stream, None)?;
         socket.set_nonblocking(true)?;
         let bind_add = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(0, 0, 0, 0)), port);
+        socket.set_reuse_address(true)?;
         socket.bind(&SockAddr::from(bind_add))?;
         socket.listen(2048)?;
-        socket.set_reuse_address(true)?;
         Ok(ServerBuilder {
             socket: TcpListener::from_std(socket.into_tcp_listener())?,
         })
-- 
2.43.0


From cb0b8ad81b54ed917df4b335bcf8e56f97b99fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:21 +0000
Subject: [PATCH 21/21] fix: go on listening when a connection can not be
 accepted

Running out of descriptors, or a connection aborted before it was
accepted, ended the server.
---
 src/server_builder.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index 4631f6f..bdbe61d 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -7,6 +7,7 @@ use std::net::{IpAddr, Ipv4Addr, SocketAddr};
 use std::sync::Arc;
 use tokio::net::{TcpListener, TcpStream};
 use tokio::stream::StreamExt;
+use tokio::task::yield_now;
 #[cfg(feature = "openSSL")]
 use tokio_openssl::SslStream;
 #[cfg(feature = "rustls")]
@@ -36,12 +37,16 @@ impl ServerBuilder {
         C: FnOnce(TcpStream, Arc<Octane>) -> T + Send + 'static + Copy,
     {
         while let Some(stream) = self.socket.next().await {
-            stream.map(|stream| {
+            let accepted = stream.map(|stream| {
                 let server = Arc::clone(&server);
                 task!({
                     exec(stream, server).await;
                 })
-            })?;
+            });
+            if accepted.is_err() {
+                // let the open connections make progress
+                yield_now().await;
+            }
         }
         Ok(())
     }
@@ -56,7 +61,13 @@ impl ServerBuilder {
         let acceptor = crate::tls::openssl::acceptor(&server.settings)?;
         while let Some(stream) = ssl_listener.next().await {
             let acceptor = acceptor.clone();
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(stream) => stream,
+                Err(_) => {
+                    yield_now().await;
+                    continue;
+                }
+            };
             let server = Arc::clone(&server);
 
             task!({
@@ -88,7 +99,13 @@ impl ServerBuilder {
 
             let server = Arc::clone(&server);
 
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(stream) => stream,
+                Err(_) => {
+                    yield_now().await;
+                    continue;
+                }
+            };
             task!({
                 let stream = acceptor.accept(tcp_stream).await;
                 if let Ok(stream_ssl) = stream {
-- 
2.43.0

