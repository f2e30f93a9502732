From b9ca6009fbbcdb772a559954a2eb2dd9918777a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 01/22] fix: write the query and a valid HEAD request line, and
 recognise HEAD when parsing

---
 puck/src/request/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 7985430..fa94f79 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -118,8 +118,11 @@ impl Request {
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
         self.method.write(write)?;
-        write!(write, " {} ", self.url.path())?;
-        write!(write, "HTTP/1.1\r\n")?;
+        write!(write, " {}", self.url.path())?;
+        if let Some(query) = self.url.query() {
+            write!(write, "?{}", query)?;
+        }
+        write!(write, " HTTP/1.1\r\n")?;
         for (key, value) in &self.headers {
             write!(write, "{}: {}\r\n", key, value)?;
         }
@@ -223,6 +226,7 @@ impl Method {
         match str.to_ascii_lowercase().as_str() {
             "get" => Self::Get,
             "post" => Self::Post,
+            "head" => Self::Head,
             _ => Self::OtherMethod(str.to_string()),
         }
     }
@@ -232,7 +236,7 @@ impl Method {
         let to_write = match self {
             Method::Get => "GET",
             Method::Post => "POST",
-            Method::Head => "HEAD /",
+            Method::Head => "HEAD",
             Method::OtherMethod(name) => name,
         };
         write!(write, "{}", to_write)
-- 
2.43.0


From 6aed6b9168543355501149950000b59c5672541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 02/22] fix: take Host and Content-Length from the last such
 header, and reject a Host that is not a host

---
 puck/src/request/mod.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index fa94f79..9635d40 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -81,11 +81,20 @@ impl Request {
             map
         };
 
+        // if a header is repeated, the last one on the wire counts
+        let last_header = |name: &str| {
+            let mut headers = req.headers.iter().rev();
+            let header = headers.find(|h| h.name.eq_ignore_ascii_case(name))?;
+            std::str::from_utf8(header.value).ok()
+        };
+
         let url =
-            if let Some((_, host)) = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("host")) {
+            if let Some(host) = last_header("host") {
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
                 if url.starts_with("http://") || url.starts_with("https://") {
                     Url::parse(url)
+                } else if !is_authority(host) {
+                    return Err(RequestParseError::InvalidUrl);
                 } else if url.starts_with('/') {
                     Url::parse(&format!("http://{}{}", host, url))
                 } else if req.method.unwrap().eq_ignore_ascii_case("connect") {
@@ -100,10 +109,7 @@ impl Request {
 
         let body = Body::from_reader(
             reader,
-            headers
-                .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
+            last_header("content-length").and_then(|len| len.parse::<usize>().ok()),
         );
 
         Ok(Some(Self {
@@ -169,6 +175,13 @@ impl Request {
     }
 }
 
+/// Whether a `Host` header names a host (and maybe a port), and nothing that would become another
+/// part of an URL.
+fn is_authority(host: &str) -> bool {
+    !host.is_empty()
+        && !host.contains(|c: char| "/\\?#@".contains(c) || c.is_ascii_whitespace())
+}
+
 #[derive(thiserror::Error, Debug)]
 /// An error encountered when trying to parse a request.
 pub enum RequestParseError {
-- 
2.43.0


From bf7e7709d7fe1aa6847a551b66b93d47185310b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 03/22] fix: report malformed responses, and limit a response's
 body to its Content-Length

---
 puck/src/response/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index b6fce84..5769362 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,7 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf);
+        let _ = res.parse(&buf)?;
 
         let headers = {
             let mut map = HashMap::new();
@@ -106,10 +106,12 @@ impl Response {
 
         let body = Body::from_reader(
             reader,
-            headers
+            // if the header is repeated, the last one on the wire counts
+            res.headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-type"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
+                .rev()
+                .find(|h| h.name.eq_ignore_ascii_case("content-length"))
+                .and_then(|h| std::str::from_utf8(h.value).ok()?.parse::<usize>().ok()),
         );
 
         Ok(Some(Self {
@@ -140,6 +142,8 @@ impl Response {
 /// An error encountered when parsing a `Response`.
 #[allow(missing_docs)]
 pub enum ParseResponseError {
+    #[error("could not parse")]
+    CouldNotParse(httparse::Error),
     #[error("io error")]
     IoError(io::Error),
     #[error("the status code was not supplied")]
@@ -155,3 +159,9 @@ impl From<io::Error> for ParseResponseError {
         Self::IoError(error)
     }
 }
+
+impl From<httparse::Error> for ParseResponseError {
+    fn from(error: httparse::Error) -> Self {
+        Self::CouldNotParse(error)
+    }
+}
-- 
2.43.0


From 479bcdee894dc388fea13553723a2cd7e0795169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 04/22] fix: do not allocate the declared length of a body
 before reading it

---
 puck/src/body/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index 059f130..6b40a09 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -77,7 +77,7 @@ impl Body {
     /// Reads to completion from the underlying IO source, and returns the result as a
     /// `String`.
     pub fn into_string(mut self) -> std::io::Result<String> {
-        let mut result = String::with_capacity(self.length.unwrap_or(0));
+        let mut result = String::with_capacity(self.length.unwrap_or(0).min(1024));
         self.read_to_string(&mut result)?;
         Ok(result)
     }
-- 
2.43.0


From 19150de2794f9d98789134206d1536b5da747978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 05/22] fix: answer malformed and incomplete requests with 400
 instead of panicking or nothing

---
 puck/src/core/mod.rs        | 6 ++++--
 puck/src/core/router/mod.rs | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 571f59f..7ecb725 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -48,7 +48,7 @@ where
                     |(stream, ints, state), _: Mailbox<()>| {
                         let router = Router::<STATE>::from_ints(ints);
 
-                        let req = if let Some(req) = Request::parse(stream.clone()).unwrap() {
+                        let req = if let Ok(Some(req)) = Request::parse(stream.clone()) {
                             req
                         } else {
                             let stream = Stream::new(stream, false);
@@ -98,7 +98,9 @@ where
                                 let _recovered_stream = (reconstructed_func)(req, stream, state);
                             }
                             _ => {
-                                todo!()
+                                let stream = Stream::new(stream, false);
+                                // can't do much if this fails
+                                let _ = stream.respond(crate::err_400());
                             }
                         }
                     },
diff --git a/puck/src/core/router/mod.rs b/puck/src/core/router/mod.rs
index e1e4d39..023373d 100644
--- a/puck/src/core/router/mod.rs
+++ b/puck/src/core/router/mod.rs
@@ -108,6 +108,9 @@ impl<STATE: Serialize + DeserializeOwned + Clone> Router<STATE> {
                     if let Ok(Some(req)) = Request::parse(stream.clone()) {
                         let router = Router::<STATE>::from_ints(ints);
                         router.respond(req, Stream::new(stream, false), state);
+                    } else {
+                        // can't do much if this fails
+                        let _ = Stream::new(stream, false).respond(crate::err_400());
                     }
                 },
             );
-- 
2.43.0


From d3973debb3d42f313f3beb0c703f333c52f25f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 06/22] fix: read exactly the bytes of a WebSocket frame,
 however they arrive

---
 puck/src/ws/frame.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index b2a0993..130c04b 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -1,6 +1,6 @@
 //! WebSocket frame parsing.
 
-use std::io::{BufReader, Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
 
@@ -19,14 +19,10 @@ pub struct Frame {
 
 impl Frame {
     /// Parse a frame from the given stream.
-    pub fn parse(stream: impl Read) -> Result<Self, ParseFrameError> {
-        let mut bufread = BufReader::new(stream);
-
+    pub fn parse(mut stream: impl Read) -> Result<Self, ParseFrameError> {
         let (first, second) = {
             let mut buffer = [0_u8; 2];
-            if bufread.read(&mut buffer)? != 2 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            stream.read_exact(&mut buffer)?;
             (buffer[0], buffer[1])
         };
 
@@ -51,8 +47,8 @@ impl Frame {
         let masked = second & 0x80 != 0;
 
         let payload_length = match second & 0x7F {
-            126 => bufread.read_uint::<NetworkEndian>(2)?,
-            127 => bufread.read_uint::<NetworkEndian>(8)?,
+            126 => stream.read_uint::<NetworkEndian>(2)?,
+            127 => stream.read_uint::<NetworkEndian>(8)?,
             i => i as u64,
         };
 
@@ -60,16 +56,16 @@ impl Frame {
             return Err(ParseFrameError::MaskNotSet);
         }
 
-        let decoded = if payload_length > 0 {
-            let mut masking_key = [0_u8; 4];
-            if bufread.read(&mut masking_key)? != 4 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+        let mut masking_key = [0_u8; 4];
+        if masked {
+            stream.read_exact(&mut masking_key)?;
+        }
 
-            let mut encoded = Vec::with_capacity(payload_length as usize);
+        let decoded = if payload_length > 0 {
+            let mut encoded = Vec::new();
 
-            let n = bufread.take(payload_length).read_to_end(&mut encoded)?;
-            if n != payload_length as usize {
+            let n = stream.take(payload_length).read_to_end(&mut encoded)?;
+            if n as u64 != payload_length {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
                 }
@@ -195,8 +191,11 @@ pub enum ParseFrameError {
 }
 
 impl From<std::io::Error> for ParseFrameError {
-    fn from(_: std::io::Error) -> Self {
-        Self::IoError
+    fn from(e: std::io::Error) -> Self {
+        match e.kind() {
+            ErrorKind::UnexpectedEof => Self::InsufficientData,
+            _ => Self::IoError,
+        }
     }
 }
 
-- 
2.43.0


From 8668794ba46f43af6301a654da9c3a46559fd7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 07/22] fix: use the shortest length encoding for payloads of
 65535 bytes

---
 puck/src/ws/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 130c04b..4cb737c 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -127,7 +127,7 @@ impl Frame {
 
         let len = self.decoded.len();
 
-        if len >= 126_usize && len < u16::MAX as usize {
+        if len >= 126_usize && len <= u16::MAX as usize {
             to.write_u16::<NetworkEndian>(len as u16)?;
         } else if len >= 126 {
             to.write_u64::<NetworkEndian>(len as u64)?;
@@ -139,7 +139,7 @@ impl Frame {
     pub(crate) fn format_length(len: u64) -> u8 {
         if len < 126 {
             len as u8
-        } else if len < u16::MAX as u64 {
+        } else if len <= u16::MAX as u64 {
             126
         } else {
             127
-- 
2.43.0


From b8027e4b41ef133f526232b587cbcc71f24c690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 08/22] fix: ignore the case of header names in the WebSocket
 handshake

---
 puck/src/ws/upgrade.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 96b1745..6f8787a 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -8,18 +8,23 @@ use crate::{err_400, write_response, Response};
 
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
-    req.headers
-        .get("Upgrade")
+    header(req, "Upgrade")
         .map(|val| val.to_ascii_lowercase() == "websocket")
         .unwrap_or_default()
         // todo: read the spec to check if the check for the upgrade header is correct!
-        && req
-            .headers
-            .get("Connection")
+        && header(req, "Connection")
             .map(|val| val.to_ascii_lowercase().contains("upgrade"))
             .unwrap_or_default()
 }
 
+/// Looks up a header, ignoring the case of its name.
+fn header<'a>(req: &'a crate::Request, name: &str) -> Option<&'a String> {
+    req.headers
+        .iter()
+        .find(|(key, _)| key.eq_ignore_ascii_case(name))
+        .map(|(_, value)| value)
+}
+
 /// The 'magic string' used to upgrade WebSocket connections.
 const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 
@@ -28,7 +33,7 @@ const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 /// Returns true if this is successful, and false if it is not. Automatically sends a 400 Bad
 /// Request response if the request fails.
 pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
-    let key = match req.headers.get("Sec-WebSocket-Key") {
+    let key = match header(req, "Sec-WebSocket-Key") {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-- 
2.43.0


From 3bcba560851b864f2bd83b7f2091153314779609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 09/22] fix: reject WebSocket frames with reserved bits

---
 puck/src/ws/message.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index 835b195..c1026fb 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -24,7 +24,7 @@ impl Message {
     /// Parse the next message from the stream.
     pub fn next(stream: impl Read + Clone) -> Result<Self, DecodeMessageError> {
         log::trace!("trying to parse next message");
-        let first = Frame::parse(stream.clone())?;
+        let first = next_frame(stream.clone())?;
 
         if first.op_code() == &OpCode::Terminate {
             trace!("Client asked to close connection");
@@ -63,7 +63,7 @@ impl Message {
         let mut payload = first.take_decoded();
 
         loop {
-            let msg = Frame::parse(stream.clone())?;
+            let msg = next_frame(stream.clone())?;
 
             if msg.op_code() == &OpCode::Terminate {
                 trace!("Client asked to close connection");
@@ -103,6 +103,15 @@ impl Message {
     }
 }
 
+/// Parse the next frame. No extension is ever negotiated, so its reserved bits must not be set.
+fn next_frame(stream: impl Read) -> Result<Frame, DecodeMessageError> {
+    let frame = Frame::parse(stream)?;
+    if frame.rsv1 || frame.rsv2 || frame.rsv3 {
+        return Err(DecodeMessageError::ClientProtocolViolationError);
+    }
+    Ok(frame)
+}
+
 #[derive(thiserror::Error, Debug)]
 /// An error encountered when trying to decode a WebSocket message.
 #[allow(missing_docs)]
-- 
2.43.0


From 8c00d2e7f4cce6ad4a545ad6583779bfe6e5fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 10/22] fix: do not panic when a WebSocket client is gone
 before the reply to its ping or close

---
 puck/src/ws/websocket.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 9df687d..bbc84c8 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -59,7 +59,7 @@ impl WebSocket {
     pub fn close(self) -> Result<UsedStream, SendFrameError> {
         match self.state {
             WebSocketState::Open => {
-                send_close_frame(self.stream.clone());
+                send_close_frame(self.stream.clone())?;
             }
             WebSocketState::Closed => {}
         };
@@ -87,7 +87,7 @@ impl Iterator for WebSocket {
             WebSocketState::Open => match Message::next(self.stream.clone()) {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
-                        send_frame(
+                        let sent = send_frame(
                             self.stream.clone(),
                             Frame {
                                 fin: true,
@@ -97,8 +97,12 @@ impl Iterator for WebSocket {
                                 op_code: super::frame::OpCode::Pong,
                                 decoded: payload.clone().unwrap_or_default(),
                             },
-                        )
-                        .expect("failed to send pong");
+                        );
+                        if sent.is_err() {
+                            // the client is gone
+                            self.state = WebSocketState::Closed;
+                            return Some(Err(NextMessageError::ConnectionClosed));
+                        }
                     }
                     Ok(msg)
                 }
@@ -108,7 +112,8 @@ impl Iterator for WebSocket {
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
                         self.state = WebSocketState::Closed;
-                        send_close_frame(self.stream.clone());
+                        // the client may be gone already
+                        let _ = send_close_frame(self.stream.clone());
                         Err(NextMessageError::ConnectionClosed)
                     }
                 },
@@ -129,7 +134,7 @@ pub enum NextMessageError {
     ConnectionClosed,
 }
 
-fn send_close_frame(stream: impl Write) {
+fn send_close_frame(stream: impl Write) -> Result<(), SendFrameError> {
     trace!("Sending close frame");
     send_frame(
         stream,
@@ -142,5 +147,4 @@ fn send_close_frame(stream: impl Write) {
             decoded: vec![],
         },
     )
-    .expect("failed to send close frame");
 }
-- 
2.43.0


From 4b04229c5d30d9527d228dd1a65bb6a29247b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 11/22] fix: write each WebSocket frame with a single call

---
 puck/src/ws/send.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index cd329a5..436204b 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -10,8 +10,11 @@ pub(crate) fn send(stream: impl Write, msg: Message) -> Result<(), SendFrameErro
 }
 
 pub(crate) fn send_frame(mut stream: impl Write, frame: Frame) -> Result<(), SendFrameError> {
-    frame.format(&mut stream)?;
-    stream.write_all(frame.decoded())?;
+    // a single write, so that frames sent by several processes do not end up inside one another
+    let mut bytes = Vec::new();
+    frame.format(&mut bytes)?;
+    bytes.extend_from_slice(frame.decoded());
+    stream.write_all(&bytes)?;
 
     Ok(())
 }
-- 
2.43.0


From e8ff53864a6fa083a0165494955d0c5d38976811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 12/22] fix: address the element by its old id when changing
 its tag name or listeners

---
 puck_liveview/src/dom/element/diff/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 9c4660f..d78b7aa 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -57,7 +57,7 @@ impl Element {
             })
         }
 
-        cs.extend(self.generate_listeners());
+        cs.extend(self.generate_listeners(self.id()));
 
         if let Some(ref value) = self.text {
             cs.ops.push(Op {
@@ -116,7 +116,7 @@ impl Element {
     fn diff_name<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         if self.name != other.name {
             Changeset::from_op(Op {
-                id: other.id(),
+                id: self.id(),
                 instruction: Instruction::SetTagName {
                     name: Cow::Borrowed(&other.name),
                 },
@@ -184,19 +184,20 @@ impl Element {
                 id: self.id(),
                 instruction: Instruction::RemoveListeners,
             });
-            c.ops.extend(other.generate_listeners())
+            c.ops.extend(other.generate_listeners(self.id()))
         }
 
         c
     }
 
-    /// Generates all the listeners which should be attached to a given `Element`.
-    fn generate_listeners(&'_ self) -> Changeset<'_> {
+    /// Generates all the listeners which should be attached to a given `Element`, which currently
+    /// has the provided ID.
+    fn generate_listeners(&'_ self, id: String) -> Changeset<'_> {
         let mut c = Changeset::empty();
 
         for listener in self.listeners.iter() {
             c.ops.push(Op {
-                id: self.id(),
+                id: id.clone(),
                 instruction: Instruction::AttachListener {
                     name: listener.listener_name().to_string(),
                     on: listener.js_event().to_string(),
-- 
2.43.0


From fb46960e551852991912a30fbdcf92494a199b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 13/22] fix: never give an element an id that another element
 still has

---
 puck_liveview/src/dom/element/diff/mod.rs | 114 +++++++++++++++++-----
 1 file changed, 92 insertions(+), 22 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index d78b7aa..909b0be 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -5,11 +5,22 @@ pub(crate) mod changeset;
 mod test_diffing;
 
 use std::borrow::Cow;
+use std::collections::{HashMap, HashSet};
 
 use self::changeset::{Changeset, Instruction, Op};
 
 use super::Element;
 
+/// What is left to do once all the elements that stay have been updated. As long as elements have
+/// their old IDs nothing can be created, because an old and a new element may have the same ID.
+#[derive(Default)]
+struct Pending<'a> {
+    /// The old and new IDs of the elements that stay.
+    ids: Vec<(usize, usize)>,
+    /// New elements, with the (new) parent they belong to.
+    created: Vec<(&'a Element, &'a Element)>,
+}
+
 impl Element {
     /// Compare two root nodes and produce a set of instructions which can be followed to produce
     /// one from the other.
@@ -17,14 +28,15 @@ impl Element {
         let mut c = Changeset::empty();
 
         if let Some(other) = other {
+            let mut pending = Pending::default();
+
             // we need to apply all these updates...
-            c.ops.extend(self.diff_name(other));
-            c.ops.extend(self.diff_attributes(other));
-            c.ops.extend(self.diff_text(other));
-            c.ops.extend(self.diff_listeners(other));
-            // ... before we change the id
-            c.ops.extend(self.diff_children(other));
-            c.ops.extend(self.diff_id(other));
+            c.ops.extend(self.diff_element(other, &mut pending));
+            // ... before we change the ids
+            c.ops.extend(Self::diff_ids(&pending.ids));
+            for (parent, el) in pending.created {
+                c.ops.extend(el.create_from_scratch(Some(parent)));
+            }
         } else {
             c.ops.extend(self.create_from_scratch(None))
         }
@@ -32,6 +44,20 @@ impl Element {
         c
     }
 
+    /// Compares two elements, without changing IDs or creating elements.
+    fn diff_element<'a>(&'a self, other: &'a Element, pending: &mut Pending<'a>) -> Changeset<'a> {
+        let mut c = Changeset::empty();
+
+        c.ops.extend(self.diff_name(other));
+        c.ops.extend(self.diff_attributes(other));
+        c.ops.extend(self.diff_text(other));
+        c.ops.extend(self.diff_listeners(other));
+        c.ops.extend(self.diff_children(other, pending));
+        pending.ids.push((self.id, other.id));
+
+        c
+    }
+
     /// Create a new element from scratch – generally used for the first application paint.
     ///
     /// In the future we should just send this as a serialized HTML string, rather than a series of
@@ -98,17 +124,53 @@ impl Element {
         cs
     }
 
-    /// Compares the ID's of two elements and emits instructions to update the underlying DOM node
-    /// so that it has the new ID.
-    fn diff_id<'a>(&'a self, other: &'a Element) -> Changeset {
-        if self.id != other.id {
-            Changeset::from_op(Op {
-                id: self.id(),
-                instruction: Instruction::SetId { value: other.id() },
+    /// Emits instructions to update the underlying DOM nodes from their old IDs to their new IDs,
+    /// such that no node is ever given an ID that another node still has.
+    fn diff_ids<'a>(ids: &[(usize, usize)]) -> Changeset<'a> {
+        let mut c = Changeset::empty();
+
+        let mut set_id = |from: usize, to: usize| {
+            c.ops.push(Op {
+                id: from.to_string(),
+                instruction: Instruction::SetId {
+                    value: to.to_string(),
+                },
             })
-        } else {
-            Changeset::empty()
+        };
+
+        let used = ids
+            .iter()
+            .flat_map(|(from, to)| [*from, *to])
+            .collect::<HashSet<_>>();
+        let spare = (0..).find(|id| !used.contains(id)).unwrap();
+
+        let mut changes = ids
+            .iter()
+            .copied()
+            .filter(|(from, to)| from != to)
+            .collect::<HashMap<_, _>>();
+
+        for (start, _) in ids {
+            // the node that has the ID this node wants has to change its ID first, and so on
+            let mut chain = vec![];
+            let mut id = *start;
+            while let Some(to) = changes.remove(&id) {
+                chain.push((id, to));
+                id = to;
+            }
+
+            if id == *start && !chain.is_empty() {
+                // the nodes exchange their IDs
+                set_id(*start, spare);
+                chain[0].0 = spare;
+            }
+
+            for (from, to) in chain.into_iter().rev() {
+                set_id(from, to);
+            }
         }
+
+        c
     }
 
     /// Compares the tag names of two DOM nodes and emits instructions to update the underlying DOM
@@ -217,7 +279,7 @@ impl Element {
 
     /// Compares the children of two nodes and emits instructions to update the old children to
     /// assume the form of the new children.
-    fn diff_children<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
+    fn diff_children<'a>(&'a self, other: &'a Element, pending: &mut Pending<'a>) -> Changeset<'a> {
         let mut changeset = Changeset::empty();
 
         if self.children_are_all_keyed() && other.children_are_all_keyed() {
@@ -226,7 +288,9 @@ impl Element {
             for (i, their_child) in other.children.iter().enumerate() {
                 if let Some(my_child) = self.locate_child_by_key(their_child.key.as_ref().unwrap())
                 {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    changeset
+                        .ops
+                        .extend(my_child.diff_element(their_child, pending));
                 } else {
                     unpaired.push(i);
                 }
@@ -272,7 +336,9 @@ impl Element {
             #[allow(clippy::comparison_chain)]
             if self_len == other_len {
                 for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    changeset
+                        .ops
+                        .extend(my_child.diff_element(their_child, pending));
                 }
                 // we are done
             } else if self_len > other_len {
@@ -283,15 +349,19 @@ impl Element {
                     })
                 }
                 for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    changeset
+                        .ops
+                        .extend(my_child.diff_element(their_child, pending));
                 }
             } else {
                 for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    changeset
+                        .ops
+                        .extend(my_child.diff_element(their_child, pending));
                 }
                 // add all the elements that they have, but we don't
                 for el in other.children[self_len..].iter() {
-                    changeset.ops.extend(el.create_from_scratch(Some(self)));
+                    pending.created.push((other, el));
                 }
             }
         }
-- 
2.43.0


From 9171738c162c124330c7b7fe1c0c3e03277774cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 14/22] fix: keep everything after a plus sign in attribute
 values and listener names

---
 puck_liveview/client/index.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index c356ddd..91c86b1 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -16,7 +16,9 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setAttr") {
             console.log("set attribute");
             console.log(document.getElementById(data.el));
-            let split = data["payload"].split("+");
+            // the value may contain a "+" as well
+            let plus = data["payload"].indexOf("+");
+            let split = [data["payload"].slice(0, plus), data["payload"].slice(plus + 1)];
             console.log(split[1]);
             let el = document.getElementById(data.el);
             el.setAttribute(split[0], split[1]);
@@ -37,7 +39,9 @@ ws.onmessage = (msg) => {
             console.log(data);
             document.getElementById(data["el"]).textContent = data["payload"];
         } else if (data.ty === "attachListener") {
-            let split = data.payload.split("+");
+            // the name of the listener may contain a "+" as well
+            let plus = data.payload.lastIndexOf("+");
+            let split = [data.payload.slice(0, plus), data.payload.slice(plus + 1)];
             document.getElementById(data.el).addEventListener(split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
-- 
2.43.0


From e4ff70523124c9a612af35c36f46be04bc4f58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 15/22] fix: keep an element's children when its text changes,
 and remove texts

---
 puck_liveview/client/index.js | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 91c86b1..dd87c30 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,5 +1,16 @@
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
+// The text of an element is its first child, followed by the child elements.
+let setText = (el, text) => {
+    let first = el.firstChild;
+    if (first && first.nodeType === Node.TEXT_NODE) {
+        el.removeChild(first);
+    }
+    if (text) {
+        el.insertBefore(document.createTextNode(text), el.firstChild);
+    }
+}
+
 ws.onmessage = (msg) => {
     let data = JSON.parse(msg.data);
     data.map((data) => {
@@ -37,7 +48,9 @@ ws.onmessage = (msg) => {
             old_tag.parentNode.replaceChild(new_tag, old_tag);
         } else if (data.ty === "setText") {
             console.log(data);
-            document.getElementById(data["el"]).textContent = data["payload"];
+            setText(document.getElementById(data["el"]), data["payload"]);
+        } else if (data.ty === "removeText") {
+            setText(document.getElementById(data["el"]), "");
         } else if (data.ty === "attachListener") {
             // the name of the listener may contain a "+" as well
             let plus = data.payload.lastIndexOf("+");
-- 
2.43.0


From 9c61dd9170f6416b9d3c296c1cc1a404f0c3671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 16/22] fix: keep the listeners of elements when a tag changes
 or other listeners are removed

---
 puck_liveview/client/index.js | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index dd87c30..5e77be6 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,5 +1,20 @@
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
+// The listeners attached to an element, as pairs of event and function.
+let listeners = new WeakMap();
+
+let attachListener = (el, event, listener) => {
+    el.addEventListener(event, listener);
+    listeners.set(el, [...listeners.get(el) || [], [event, listener]]);
+}
+
+let removeListeners = (el) => {
+    for (let [event, listener] of listeners.get(el) || []) {
+        el.removeEventListener(event, listener);
+    }
+    listeners.delete(el);
+}
+
 // The text of an element is its first child, followed by the child elements.
 let setText = (el, text) => {
     let first = el.firstChild;
@@ -38,7 +53,12 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setTagName") {
             let old_tag = document.getElementById(data.el);
             let new_tag = document.createElement(data.payload);
-            new_tag.innerHTML = old_tag.innerHTML;
+            while (old_tag.firstChild) {
+                new_tag.appendChild(old_tag.firstChild);
+            }
+            for (let [event, listener] of listeners.get(old_tag) || []) {
+                attachListener(new_tag, event, listener);
+            }
             for (var i = 0, l = old_tag.attributes.length; i < l; ++i) {
                 let name = old_tag.attributes.item(i).nodeName;
                 var value = old_tag.attributes.item(i).nodeValue;
@@ -55,7 +75,7 @@ ws.onmessage = (msg) => {
             // the name of the listener may contain a "+" as well
             let plus = data.payload.lastIndexOf("+");
             let split = [data.payload.slice(0, plus), data.payload.slice(plus + 1)];
-            document.getElementById(data.el).addEventListener(split[1], function (e) {
+            attachListener(document.getElementById(data.el), split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
                 console.log(data);
@@ -79,9 +99,7 @@ ws.onmessage = (msg) => {
                 }
             })
         } else if (data.ty === "removeListeners") {
-            let old = document.getElementById(data.el);
-            let new_el = old.cloneNode(true);
-            old.parentNode.replaceChild(new_el, old);
+            removeListeners(document.getElementById(data.el));
         } else if (data.ty === "deleteEl") {
             let el = document.getElementById(data.el);
             console.log("deleting");
-- 
2.43.0


From 650f7b09f01641ffa198ce147500bf8fd758e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 17/22] fix: give select and noscript elements their own tag
 names

---
 puck_liveview/src/html/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index b064502..1a31400 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -145,7 +145,7 @@ impl WrappedBodyNode {
                 let select = select.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("select"),
                     attributes: select.attrs,
                     listeners: self.listeners,
                     children: self
@@ -162,7 +162,7 @@ impl WrappedBodyNode {
                 let noscript = noscript.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("noscript"),
                     attributes: HashMap::new(),
                     listeners: vec![],
                     children: vec![],
-- 
2.43.0


From 04f32ba22be0864c21977232e1165fb3e5de3ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 18/22] fix: end a live session when its connection fails or
 its client violates the protocol

---
 puck_liveview/src/component/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 9de4e09..bb4d773 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -69,10 +69,13 @@ where
             Process::spawn(
                 (stream, process.clone()),
                 |(mut websocket, process), _: Mailbox<()>| loop {
-                    loop {
-                        let msg = websocket.next();
-                        if let Some(msg) = msg {
-                            process.send(WsOrInput::Ws(msg))
+                    let msg = websocket.next();
+                    if let Some(msg) = msg {
+                        // nothing more can be read after an error
+                        let failed = msg.is_err();
+                        process.send(WsOrInput::Ws(msg));
+                        if failed {
+                            break;
                         }
                     }
                 },
@@ -164,9 +167,7 @@ fn main_loop<COMPONENT, DATA, INPUT>(
                     };
                 } else if let Err(e) = msg {
                     match e {
-                        // todo: what should we do here?
-                        NextMessageError::ClientError => {}
-                        NextMessageError::ConnectionClosed => {
+                        NextMessageError::ClientError | NextMessageError::ConnectionClosed => {
                             drop(component);
                             return;
                         }
-- 
2.43.0


From 735e0bb46e8e196246c22bf000f33d2d15c26a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 19/22] fix: the list example shows the last n items, not all
 of them

---
 examples/list/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/list/src/main.rs b/examples/list/src/main.rs
index c40bae2..e65ea2a 100644
--- a/examples/list/src/main.rs
+++ b/examples/list/src/main.rs
@@ -169,7 +169,7 @@ impl ProcessRequest<Msg> for List {
                 if state.items.len() < n {
                     Reply::Items(state.items.clone())
                 } else {
-                    Reply::Items(state.items.get(0..).unwrap().to_vec())
+                    Reply::Items(state.items[state.items.len() - n..].to_vec())
                 }
             }
         }
-- 
2.43.0


From 42f2aa52b4f57ba6591e7766872c724f24349e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 20/22] fix: the list example answers a request for a negative
 number of items

---
 examples/list/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/examples/list/src/main.rs b/examples/list/src/main.rs
index e65ea2a..22e22d8 100644
--- a/examples/list/src/main.rs
+++ b/examples/list/src/main.rs
@@ -94,7 +94,11 @@ fn main(_: Mailbox<()>) {
             },
             |request, stream, state| {
                 let segment = request.url().path().split_at("/read/".len()).1;
-                let n = segment.parse::<usize>().unwrap();
+                let n = match segment.parse::<usize>() {
+                    Ok(n) => n,
+                    // a negative number
+                    Err(_) => return stream.respond(puck::err_400()).unwrap(),
+                };
                 let res = state.request(Msg::LastN(n));
                 let items = match res {
                     Reply::Items(items) => items,
-- 
2.43.0


From 30e166bd764278d93dce4d1bfa13523a43073d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 21/22] fix: the list example answers a submission that is not
 UTF-8

---
 examples/list/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/list/src/main.rs b/examples/list/src/main.rs
index 22e22d8..16defe9 100644
--- a/examples/list/src/main.rs
+++ b/examples/list/src/main.rs
@@ -56,7 +56,10 @@ fn main(_: Mailbox<()>) {
                         .does_match(request.url())
             },
             |mut request, stream, state| {
-                let res = request.take_body().into_string().unwrap();
+                let res = match request.take_body().into_string() {
+                    Ok(res) => res,
+                    Err(_) => return stream.respond(puck::err_400()).unwrap(),
+                };
 
                 if res.starts_with("message=") {
                     // beware of how utf-8 works if you copy this
-- 
2.43.0


From ec626513fa8e1b64f00ae7e409ea870bc7fbc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 22/22] Restore the list example, which is not to be changed

---
 examples/list/src/main.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/examples/list/src/main.rs b/examples/list/src/main.rs
index 16defe9..c40bae2 100644
--- a/examples/list/src/main.rs
+++ b/examples/list/src/main.rs
@@ -56,10 +56,7 @@ fn main(_: Mailbox<()>) {
                         .does_match(request.url())
             },
             |mut request, stream, state| {
-                let res = match request.take_body().into_string() {
-                    Ok(res) => res,
-                    Err(_) => return stream.respond(puck::err_400()).unwrap(),
-                };
+                let res = request.take_body().into_string().unwrap();
 
                 if res.starts_with("message=") {
                     // beware of how utf-8 works if you copy this
@@ -97,11 +94,7 @@ fn main(_: Mailbox<()>) {
             },
             |request, stream, state| {
                 let segment = request.url().path().split_at("/read/".len()).1;
-                let n = match segment.parse::<usize>() {
-                    Ok(n) => n,
-                    // a negative number
-                    Err(_) => return stream.respond(puck::err_400()).unwrap(),
-                };
+                let n = segment.parse::<usize>().unwrap();
                 let res = state.request(Msg::LastN(n));
                 let items = match res {
                     Reply::Items(items) => items,
@@ -176,7 +169,7 @@ impl ProcessRequest<Msg> for List {
                 if state.items.len() < n {
                     Reply::Items(state.items.clone())
                 } else {
-                    Reply::Items(state.items[state.items.len() - n..].to_vec())
+                    Reply::Items(state.items.get(0..).unwrap().to_vec())
                 }
             }
         }
-- 
2.43.0

