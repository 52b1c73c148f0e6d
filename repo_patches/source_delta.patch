From 876df79120b1bdb96159568f869728868e483c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 01/16] fix: do not panic on messages with more than 128 tags

---
 src/irc/tags.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index c02837c..a275f6f 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -262,6 +262,9 @@ impl TagPair {
 struct Array<const CAPACITY: usize, T> {
   data: [core::mem::MaybeUninit<T>; CAPACITY],
   len: usize,
+
+  // items which did not fit into `data`
+  overflow: Vec<T>,
 }
 
 impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
@@ -276,11 +279,17 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
       Self {
         data: array_of_uninit,
         len: 0,
+        overflow: Vec::new(),
       }
     }
   }
 
   fn push(&mut self, value: T) {
+    if self.len == CAPACITY {
+      self.overflow.push(value);
+      return;
+    }
+
     self.data[self.len].write(value);
     self.len += 1;
   }
@@ -288,7 +297,11 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
   fn to_vec(&self) -> Vec<T> {
     let init = &self.data[..self.len];
     let init = unsafe { core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>(init) };
-    init.to_vec()
+    if self.overflow.is_empty() {
+      init.to_vec()
+    } else {
+      [init, &self.overflow].concat()
+    }
   }
 }
 
-- 
2.43.0


From 7b80bad98c0d38d370b73b91586e4736c2250c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 02/16] fix: Tag::PinnedChatPaidCanonicalAmount named the wrong
 tag

---
 src/irc/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index a275f6f..a389cb6 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -173,7 +173,7 @@ tags_def! {
   b"pinned-chat-paid-amount"; "pinned-chat-paid-amount" = PinnedChatPaidAmount,
 
   /// The value of the Hype Chat sent by the user. This seems to always be the same as `pinned-chat-paid-amount`.
-  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-amount" = PinnedChatPaidCanonicalAmount,
+  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-canonical-amount" = PinnedChatPaidCanonicalAmount,
 
   /// The ISO 4217 alphabetic currency code the user has sent the Hype Chat in.
   b"pinned-chat-paid-currency"; "pinned-chat-paid-currency" = PinnedChatPaidCurrency,
-- 
2.43.0


From 91970f937bd2be86091e47fa1a45c578323cf0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 03/16] fix: tag keys and values longer than 65535 bytes were
 cut off

---
 src/irc/tags.rs        | 10 +++++-----
 src/irc/tags/scalar.rs |  8 ++++----
 src/irc/tags/simd.rs   |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index a389cb6..3977cc0 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -227,11 +227,11 @@ pub(super) struct TagPair {
   key_start: u32,
   // key=value
   //    ^
-  key_end: u16,
+  key_end: u32,
 
   // key=value
   //          ^
-  value_end: u16,
+  value_end: u32,
 }
 
 impl TagPair {
@@ -240,7 +240,7 @@ impl TagPair {
   #[inline]
   pub fn key(&self) -> Span {
     let start = self.key_start;
-    let end = start + self.key_end as u32;
+    let end = start + self.key_end;
     Span { start, end }
   }
 
@@ -248,8 +248,8 @@ impl TagPair {
   //     ^    ^
   #[inline]
   pub fn value(&self) -> Span {
-    let start = self.key_start + self.key_end as u32 + 1;
-    let end = start + self.value_end as u32;
+    let start = self.key_start + self.key_end + 1;
+    let end = start + self.value_end;
     Span { start, end }
   }
 
diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 0ef9d8f..606f7bb 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -22,8 +22,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
           state = State::Key {
             key_start: offset + 1,
@@ -34,8 +34,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
         }
         break;
diff --git a/src/irc/tags/simd.rs b/src/irc/tags/simd.rs
index b70e887..4d9b390 100644
--- a/src/irc/tags/simd.rs
+++ b/src/irc/tags/simd.rs
@@ -31,9 +31,9 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
       tags.push(TagPair {
         // relative to original `src`
         key_start: key_start as u32 + 1,
-        key_end: (key_end - key_start) as u16,
+        key_end: (key_end - key_start) as u32,
         // starts after `=`
-        value_end: (pos - (key_end + 1)) as u16,
+        value_end: (pos - (key_end + 1)) as u32,
       });
     }
   }
@@ -86,9 +86,9 @@ fn parse_chunk(offset: usize, chunk: V, state: &mut State, tags: &mut Array<128,
         tags.push(TagPair {
           // relative to original `src`
           key_start: key_start as u32 + 1,
-          key_end: (key_end - key_start) as u16,
+          key_end: (key_end - key_start) as u32,
           // starts after `=`
-          value_end: (pos - (key_end + 1)) as u16,
+          value_end: (pos - (key_end + 1)) as u32,
         });
       }
     }
-- 
2.43.0


From 52c31469a3f450e0f4a388153c3b471281eb3781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 04/16] fix: scalar tag parser panicked if no space followed
 the tags

---
 src/irc/tags/scalar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 606f7bb..5a0786d 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -46,6 +46,11 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
     offset += 1;
   }
 
+  if offset == src.len() {
+    // tags must be followed by a space
+    return None;
+  }
+
   *pos += offset + 2; // skip '@' + space
 
   Some(RawTags(tags.to_vec()))
-- 
2.43.0


From 38669ab12d78c53d76bdbd9c48dd000208e44cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 05/16] fix: overflow on large followers-only values in
 ROOMSTATE

---
 src/msg/room_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msg/room_state.rs b/src/msg/room_state.rs
index 2c5f07d..059a315 100644
--- a/src/msg/room_state.rs
+++ b/src/msg/room_state.rs
@@ -103,7 +103,9 @@ impl<'src> RoomState<'src> {
         .tag(Tag::FollowersOnly)
         .and_then(|v| v.parse().ok())
         .map(|n: i64| match n {
-          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n * 60) as u64))),
+          n if n > 0 => {
+            FollowersOnly::Enabled(Some(Duration::from_secs((n as u64).saturating_mul(60))))
+          }
           0 => FollowersOnly::Enabled(None),
           _ => FollowersOnly::Disabled,
         }),
-- 
2.43.0


From 6d6cdc3ec817a13f2948f308b88468a2d6988060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 06/16] fix: login was sent again after a handshake which
 failed while writing

---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index ed0421f..5de40e2 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -339,8 +339,11 @@ impl Client {
     write!(&mut self.scratch, "PASS {oauth}{token}\r\n").unwrap();
     write!(&mut self.scratch, "NICK {login}\r\n").unwrap();
 
-    self.writer.write_all(self.scratch.as_bytes()).await?;
+    // the scratch must be empty again even if we fail or are cancelled past this point
+    let scratch = std::mem::take(&mut self.scratch);
+    self.writer.write_all(scratch.as_bytes()).await?;
     self.writer.flush().await?;
+    self.scratch = scratch;
     self.scratch.clear();
 
     trace!("waiting for CAP * ACK");
-- 
2.43.0


From 846f34fbd5f61e09b6e2cb5281ad6fd312d8cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 07/16] fix: sent messages could stay in the TLS buffer

---
 src/client/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index 502b7ff..f6b4602 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -85,6 +85,7 @@ impl Client {
     let RawMessage { data } = s.try_into()?;
     trace!(data, "sending message");
     self.writer.write_all(data.as_bytes()).await?;
+    self.writer.flush().await?;
     Ok(())
   }
 
-- 
2.43.0


From 44aade97ab0ad10fa37210afd8dd4bb64d18b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 08/16] fix: escape tag values of sent messages

---
 src/client/write.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/client/write.rs b/src/client/write.rs
index f6b4602..90482a1 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -1,7 +1,7 @@
 use super::{conn, Client};
 use crate::common::JoinIter;
 use std::convert::Infallible;
-use std::fmt::Display;
+use std::fmt::{Display, Write};
 use tokio::io;
 use tokio::io::{AsyncWriteExt, WriteHalf};
 
@@ -23,8 +23,18 @@ struct Tag<'a> {
 impl<'a> std::fmt::Display for Tag<'a> {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
     let Self { key, value } = self;
-    // TODO: handle escaping
-    write!(f, "{key}={value}")
+    write!(f, "{key}=")?;
+    for c in value.chars() {
+      match c {
+        ';' => f.write_str("\\:")?,
+        ' ' => f.write_str("\\s")?,
+        '\\' => f.write_str("\\\\")?,
+        '\r' => f.write_str("\\r")?,
+        '\n' => f.write_str("\\n")?,
+        c => f.write_char(c)?,
+      }
+    }
+    Ok(())
   }
 }
 
-- 
2.43.0


From 8feaa1c7520fda00254dd2709bd0be2d1cae5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 09/16] fix: reconnect gave up on the first timeout

---
 src/client.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 5de40e2..bf56e9f 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -294,9 +294,13 @@ impl Client {
       delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);
 
       trace!("opening connection to twitch");
-      let stream = match conn::open(self.tls.clone()).timeout(timeout).await? {
-        Ok(stream) => stream,
-        Err(e @ OpenStreamError::Io(_)) => {
+      let stream = match conn::open(self.tls.clone()).timeout(timeout).await {
+        Ok(Ok(stream)) => stream,
+        Ok(Err(e @ OpenStreamError::Io(_))) => {
+          cause = e.into();
+          continue;
+        }
+        Err(e) => {
           cause = e.into();
           continue;
         }
@@ -304,7 +308,8 @@ impl Client {
 
       (self.reader, self.writer) = split(stream);
 
-      if let Err(e) = self.handshake().timeout(timeout).await? {
+      let result = self.handshake().timeout(timeout).await;
+      if let Err(e) = result.unwrap_or_else(|e| Err(e.into())) {
         if e.should_retry() {
           cause = e;
           continue;
@@ -484,7 +489,10 @@ pub enum ConnectError {
 
 impl ConnectError {
   fn should_retry(&self) -> bool {
-    matches!(self, Self::Open(OpenStreamError::Io(_)) | Self::Io(_))
+    matches!(
+      self,
+      Self::Open(OpenStreamError::Io(_)) | Self::Io(_) | Self::Timeout
+    )
   }
 }
 
-- 
2.43.0


From 7333dea7df96bcbed0d6d73b09ceef42b3c369b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 10/16] fix: reconnect gave up if the connection was lost
 during the handshake

---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index bf56e9f..cc4c46a 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -491,7 +491,10 @@ impl ConnectError {
   fn should_retry(&self) -> bool {
     matches!(
       self,
-      Self::Open(OpenStreamError::Io(_)) | Self::Io(_) | Self::Timeout
+      Self::Open(OpenStreamError::Io(_))
+        | Self::Io(_)
+        | Self::Read(RecvError::Io(_) | RecvError::StreamClosed)
+        | Self::Timeout
     )
   }
 }
-- 
2.43.0


From 32e615781bec1df11674a200b4534ec5277c7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 11/16] fix: most ways to lose the connection were not
 identified as a disconnect

---
 src/client/read.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/client/read.rs b/src/client/read.rs
index 9b2e59a..94b7985 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -39,15 +39,10 @@ impl RecvError {
   pub fn is_disconnect(&self) -> bool {
     match self {
       RecvError::StreamClosed => true,
-      RecvError::Io(e)
-        if matches!(
-          e.kind(),
-          io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionAborted | io::ErrorKind::TimedOut
-        ) =>
-      {
-        true
-      }
-      _ => false,
+      // the stream is only still usable if all that's wrong is that
+      // the message is not valid UTF-8
+      RecvError::Io(e) => e.kind() != io::ErrorKind::InvalidData,
+      RecvError::Parse(_) => false,
     }
   }
 }
-- 
2.43.0


From 8d90fad30acc8a6a738e54054e1f79183fa6fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 12/16] fix: a corrupted TLS stream was not identified as a
 disconnect

---
 src/client/read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/read.rs b/src/client/read.rs
index 94b7985..c968949 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -41,7 +41,12 @@ impl RecvError {
       RecvError::StreamClosed => true,
       // the stream is only still usable if all that's wrong is that
       // the message is not valid UTF-8
-      RecvError::Io(e) => e.kind() != io::ErrorKind::InvalidData,
+      RecvError::Io(e) => {
+        e.kind() != io::ErrorKind::InvalidData
+          || e
+            .get_ref()
+            .is_some_and(|e| e.is::<tokio_rustls::rustls::Error>())
+      }
       RecvError::Parse(_) => false,
     }
   }
-- 
2.43.0


From f19a1b5ac26b07cf9445929a0c7fa88c98db7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 13/16] fix: a line cut off by the end of the connection was
 returned as a message

---
 src/client.rs      | 10 ++-----
 src/client/read.rs | 68 +++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index cc4c46a..68a4c0d 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -53,7 +53,7 @@ pub mod util;
 pub mod write;
 
 use self::conn::{OpenStreamError, TlsConfig, TlsConfigError};
-use self::read::{ReadStream, RecvError};
+use self::read::{Lines, ReadStream, RecvError};
 use self::write::WriteStream;
 use crate::irc::Command;
 use crate::IrcMessage;
@@ -63,10 +63,9 @@ use std::fmt::{Display, Write};
 use std::future::Future;
 use std::io;
 use std::time::Duration;
-use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
+use tokio::io::{AsyncWriteExt, BufReader};
 use tokio_rustls::rustls::client::InvalidDnsNameError;
 use tokio_rustls::rustls::ServerName;
-use tokio_stream::wrappers::LinesStream;
 use util::Timeout;
 
 /// The default timeout used when connecting to Twitch IRC.
@@ -415,10 +414,7 @@ impl Client {
 fn split(stream: conn::Stream) -> (ReadStream, WriteStream) {
   let (reader, writer) = tokio::io::split(stream);
 
-  (
-    LinesStream::new(BufReader::new(reader).lines()).fuse(),
-    writer,
-  )
+  (Lines::new(BufReader::new(reader)).fuse(), writer)
 }
 
 /// An error which occurred while attempting to reconnect to Twitch IRC.
diff --git a/src/client/read.rs b/src/client/read.rs
index c968949..71923d7 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -2,12 +2,72 @@ use super::{conn, Client};
 use crate::irc::IrcMessage;
 use futures_util::stream::Fuse;
 use std::fmt::Display;
+use std::mem::take;
+use std::pin::Pin;
+use std::task::{ready, Context, Poll};
 use tokio::io;
-use tokio::io::{BufReader, ReadHalf};
-use tokio_stream::wrappers::LinesStream;
-use tokio_stream::StreamExt;
+use tokio::io::{AsyncBufRead, BufReader, ReadHalf};
+use tokio_stream::{Stream, StreamExt};
 
-pub type ReadStream = Fuse<LinesStream<BufReader<ReadHalf<conn::Stream>>>>;
+pub type ReadStream = Fuse<Lines>;
+
+/// Stream of the lines received on a connection.
+///
+/// A line which is cut off by the end of the connection is not returned,
+/// and nothing else is returned after the connection fails.
+pub struct Lines {
+  reader: BufReader<ReadHalf<conn::Stream>>,
+  line: Vec<u8>,
+  closed: bool,
+}
+
+impl Lines {
+  pub(super) fn new(reader: BufReader<ReadHalf<conn::Stream>>) -> Self {
+    Self {
+      reader,
+      line: Vec::new(),
+      closed: false,
+    }
+  }
+}
+
+impl Stream for Lines {
+  type Item = io::Result<String>;
+
+  fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
+    let this = &mut *self;
+    while !this.closed {
+      let data = match ready!(Pin::new(&mut this.reader).poll_fill_buf(cx)) {
+        Ok(data) => data,
+        Err(e) => {
+          this.closed = true;
+          return Poll::Ready(Some(Err(e)));
+        }
+      };
+      let end = data.iter().position(|&b| b == b'\n');
+      let len = end.map_or(data.len(), |i| i + 1);
+      this.closed = len == 0;
+      this.line.extend_from_slice(&data[..len]);
+      Pin::new(&mut this.reader).consume(len);
+
+      if end.is_some() {
+        let mut line = take(&mut this.line);
+        line.pop();
+        if line.ends_with(b"\r") {
+          line.pop();
+        }
+        let line = String::from_utf8(line).map_err(|_| {
+          io::Error::new(
+            io::ErrorKind::InvalidData,
+            "stream did not contain valid UTF-8",
+          )
+        });
+        return Poll::Ready(Some(line));
+      }
+    }
+    Poll::Ready(None)
+  }
+}
 
 impl Client {
   /// Read a single [`IrcMessage`] from the underlying stream.
-- 
2.43.0


From 2739c2e781632438e1fe72f79fa364a55244280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 14/16] fix: escapes in the names of UserState, GiftPaidUpgrade
 and SubGiftPromo were not resolved

---
 src/msg/user_notice.rs | 4 ++--
 src/msg/user_state.rs  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 316a0ee..f370d43 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -450,7 +450,7 @@ fn parse_promotion<'src>(message: &IrcMessageRef<'src>) -> Option<SubGiftPromo<'
   ) {
     (Some(total_gifts), Some(promo_name)) => Some(SubGiftPromo {
       total_gifts,
-      promo_name: promo_name.into(),
+      promo_name: maybe_unescape(promo_name),
     }),
     _ => None,
   }
@@ -544,7 +544,7 @@ impl<'src> UserNotice<'src> {
       "giftpaidupgrade" => (
         Event::GiftPaidUpgrade(GiftPaidUpgrade {
           gifter_login: message.tag(Tag::MsgParamSenderLogin)?.into(),
-          gifter_name: message.tag(Tag::MsgParamSenderName)?.into(),
+          gifter_name: maybe_unescape(message.tag(Tag::MsgParamSenderName)?),
           promotion: parse_promotion(&message),
         }),
         false,
diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 69f8c99..80f910a 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -5,7 +5,9 @@
 //!
 //! For example, [`UserState::badges`] may be different from [`GlobalUserState::badges`][crate::msg::global_user_state::GlobalUserState::badges].
 
-use super::{is_not_empty, maybe_clone, parse_badges, split_comma, Badge, MessageParseError};
+use super::{
+  is_not_empty, maybe_clone, maybe_unescape, parse_badges, split_comma, Badge, MessageParseError,
+};
 use crate::irc::{Command, IrcMessageRef, Tag};
 use std::borrow::Cow;
 
@@ -73,7 +75,7 @@ impl<'src> UserState<'src> {
 
     Some(UserState {
       channel: message.channel()?.into(),
-      user_name: message.tag(Tag::DisplayName)?.into(),
+      user_name: maybe_unescape(message.tag(Tag::DisplayName)?),
       badges: message
         .tag(Tag::Badges)
         .zip(message.tag(Tag::BadgeInfo))
-- 
2.43.0


From 9adfcdb0e5dd3f24fe865ccc9a1711dffe7b568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 15/16] fix: a subscriber badge without a month count could be
 serialized but not deserialized

---
 src/msg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msg.rs b/src/msg.rs
index 4ff0e04..e4112e2 100644
--- a/src/msg.rs
+++ b/src/msg.rs
@@ -441,7 +441,7 @@ static_assert_sync!(Message<'_>);
 #[cfg(feature = "serde")]
 mod _serde {
   use super::*;
-  use serde::{de, Deserialize, Deserializer};
+  use serde::{Deserialize, Deserializer};
 
   #[cfg(feature = "serde")]
   impl<'de: 'src, 'src> Deserialize<'de> for Subscriber<'src> {
@@ -459,7 +459,7 @@ mod _serde {
       let t = _T::deserialize(deserializer)?;
       Ok(Subscriber {
         version: t.version,
-        months_n: t.months.parse().map_err(de::Error::custom)?,
+        months_n: t.months.parse().unwrap_or(1),
         months: t.months,
       })
     }
-- 
2.43.0


From 799113a0f0a26485c1a5e45c73dccf9b8c28ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 16/16] fix: report the badges of whispers, which carry no
 badge-info tag

---
 src/msg/whisper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msg/whisper.rs b/src/msg/whisper.rs
index 1df8148..8d25886 100644
--- a/src/msg/whisper.rs
+++ b/src/msg/whisper.rs
@@ -81,10 +81,10 @@ impl<'src> Whisper<'src> {
         .tag(Tag::Color)
         .filter(is_not_empty)
         .map(|v| v.into()),
+      // whispers are sent without `badge-info`
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emotes: message.tag(Tag::Emotes).unwrap_or_default().into(),
     })
-- 
2.43.0

