From 14fcc68266013743d8b28843559b24d670f7be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 01/15] fix: name of the pinned-chat-paid-canonical-amount tag

Tag::PinnedChatPaidCanonicalAmount.as_str() returned the name of another tag,
so looking it up returned the value of pinned-chat-paid-amount.
---
 src/irc/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index c02837c..955b216 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -173,7 +173,7 @@ tags_def! {
   b"pinned-chat-paid-amount"; "pinned-chat-paid-amount" = PinnedChatPaidAmount,
 
   /// The value of the Hype Chat sent by the user. This seems to always be the same as `pinned-chat-paid-amount`.
-  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-amount" = PinnedChatPaidCanonicalAmount,
+  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-canonical-amount" = PinnedChatPaidCanonicalAmount,
 
   /// The ISO 4217 alphabetic currency code the user has sent the Hype Chat in.
   b"pinned-chat-paid-currency"; "pinned-chat-paid-currency" = PinnedChatPaidCurrency,
-- 
2.43.0


From b94693c25d70b61461306b6824b1c887a50c9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 02/15] fix: unescaping after an unknown escape sequence

A backslash in front of a character without a special meaning is dropped, but
the escape state was kept, so a later ordinary character was replaced
(`\\axs` gave `ax ` instead of `axs`).
---
 src/irc.rs | 10 ++++++++--
 src/lib.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/irc.rs b/src/irc.rs
index 3478b40..aafb6a4 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -361,9 +361,15 @@ pub fn unescape(value: &str) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
       '\\' => escape = true,
-      c => out.push(c),
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
   out
diff --git a/src/lib.rs b/src/lib.rs
index b9ced7f..462587f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,8 +85,14 @@ fn actually_unescape(input: &str, start: usize) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
-      c => out.push(c),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
 
-- 
2.43.0


From 88100bfe44c0e6f709d84269afc54382f26de494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 03/15] fix: panic on lines with more than 128 tags

---
 src/irc/tags.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index 955b216..8c743af 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -259,9 +259,11 @@ impl TagPair {
   }
 }
 
+/// Stores up to `CAPACITY` items inline, any further ones on the heap.
 struct Array<const CAPACITY: usize, T> {
   data: [core::mem::MaybeUninit<T>; CAPACITY],
   len: usize,
+  rest: Vec<T>,
 }
 
 impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
@@ -276,11 +278,16 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
       Self {
         data: array_of_uninit,
         len: 0,
+        rest: Vec::new(),
       }
     }
   }
 
   fn push(&mut self, value: T) {
+    if self.len == CAPACITY {
+      self.rest.push(value);
+      return;
+    }
     self.data[self.len].write(value);
     self.len += 1;
   }
@@ -288,7 +295,7 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
   fn to_vec(&self) -> Vec<T> {
     let init = &self.data[..self.len];
     let init = unsafe { core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>(init) };
-    init.to_vec()
+    [init, &self.rest].concat()
   }
 }
 
-- 
2.43.0


From 81c17f6d569f50ba16ad62c9090e45d826901c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 04/15] fix: truncation of tag keys and values longer than
 65535 bytes

---
 src/irc/tags.rs        | 10 +++++-----
 src/irc/tags/scalar.rs |  8 ++++----
 src/irc/tags/simd.rs   |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index 8c743af..ed6df85 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -227,11 +227,11 @@ pub(super) struct TagPair {
   key_start: u32,
   // key=value
   //    ^
-  key_end: u16,
+  key_end: u32,
 
   // key=value
   //          ^
-  value_end: u16,
+  value_end: u32,
 }
 
 impl TagPair {
@@ -240,7 +240,7 @@ impl TagPair {
   #[inline]
   pub fn key(&self) -> Span {
     let start = self.key_start;
-    let end = start + self.key_end as u32;
+    let end = start + self.key_end;
     Span { start, end }
   }
 
@@ -248,8 +248,8 @@ impl TagPair {
   //     ^    ^
   #[inline]
   pub fn value(&self) -> Span {
-    let start = self.key_start + self.key_end as u32 + 1;
-    let end = start + self.value_end as u32;
+    let start = self.key_start + self.key_end + 1;
+    let end = start + self.value_end;
     Span { start, end }
   }
 
diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 0ef9d8f..606f7bb 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -22,8 +22,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
           state = State::Key {
             key_start: offset + 1,
@@ -34,8 +34,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
         }
         break;
diff --git a/src/irc/tags/simd.rs b/src/irc/tags/simd.rs
index b70e887..4d9b390 100644
--- a/src/irc/tags/simd.rs
+++ b/src/irc/tags/simd.rs
@@ -31,9 +31,9 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
       tags.push(TagPair {
         // relative to original `src`
         key_start: key_start as u32 + 1,
-        key_end: (key_end - key_start) as u16,
+        key_end: (key_end - key_start) as u32,
         // starts after `=`
-        value_end: (pos - (key_end + 1)) as u16,
+        value_end: (pos - (key_end + 1)) as u32,
       });
     }
   }
@@ -86,9 +86,9 @@ fn parse_chunk(offset: usize, chunk: V, state: &mut State, tags: &mut Array<128,
         tags.push(TagPair {
           // relative to original `src`
           key_start: key_start as u32 + 1,
-          key_end: (key_end - key_start) as u16,
+          key_end: (key_end - key_start) as u32,
           // starts after `=`
-          value_end: (pos - (key_end + 1)) as u16,
+          value_end: (pos - (key_end + 1)) as u32,
         });
       }
     }
-- 
2.43.0


From 22b349046615fdf20ffc027bdf1a72f5ea61c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 05/15] fix: IrcMessage::text for params without a colon

IrcMessageRef::text returns all params in that case.
---
 src/irc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irc.rs b/src/irc.rs
index aafb6a4..3dd4d4d 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -261,11 +261,13 @@ impl IrcMessage {
   }
 
   /// Returns the contents of the params after the last `:`.
+  ///
+  /// If `:` is not present, returns all params.
   pub fn text(&self) -> Option<&str> {
     match self.params() {
       Some(params) => match params.find(':') {
         Some(start) => Some(&params[start + 1..]),
-        None => None,
+        None => Some(params),
       },
       None => None,
     }
-- 
2.43.0


From 245c1f561ad60e6705f69c7a1ec3a94fd2ff1003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 06/15] fix: panic of the scalar tag parser on tags without a
 terminating space

It moved the position beyond the end of the line; the SIMD parser reports no
tags for such lines.
---
 src/irc/tags/scalar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 606f7bb..b7b840c 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -46,6 +46,10 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
     offset += 1;
   }
 
+  if offset == src.len() {
+    // the tags have to be followed by a space
+    return None;
+  }
   *pos += offset + 2; // skip '@' + space
 
   Some(RawTags(tags.to_vec()))
-- 
2.43.0


From 8d9903c3bf3f48dd07789628a019684697cf0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 07/15] fix: overflow of very long followers-only durations

---
 src/msg/room_state.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/msg/room_state.rs b/src/msg/room_state.rs
index 2c5f07d..6fe240e 100644
--- a/src/msg/room_state.rs
+++ b/src/msg/room_state.rs
@@ -102,10 +102,13 @@ impl<'src> RoomState<'src> {
       followers_only: message
         .tag(Tag::FollowersOnly)
         .and_then(|v| v.parse().ok())
-        .map(|n: i64| match n {
-          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n * 60) as u64))),
-          0 => FollowersOnly::Enabled(None),
-          _ => FollowersOnly::Disabled,
+        .and_then(|n: i64| match n {
+          n if n > 0 => {
+            let seconds = (n as u64).checked_mul(60)?;
+            Some(FollowersOnly::Enabled(Some(Duration::from_secs(seconds))))
+          }
+          0 => Some(FollowersOnly::Enabled(None)),
+          _ => Some(FollowersOnly::Disabled),
         }),
       r9k: message.tag(Tag::R9K).map(parse_bool),
       slow: message
-- 
2.43.0


From fa5ac8516ac2f6a5711f9fdc21ffbce09ceb03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 08/15] fix: deserializing subscriber badges whose months are
 not a number

Parsing such a badge from a line falls back to 1 month, but deserializing the
serialized badge failed.
---
 src/msg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msg.rs b/src/msg.rs
index 4ff0e04..e4112e2 100644
--- a/src/msg.rs
+++ b/src/msg.rs
@@ -441,7 +441,7 @@ static_assert_sync!(Message<'_>);
 #[cfg(feature = "serde")]
 mod _serde {
   use super::*;
-  use serde::{de, Deserialize, Deserializer};
+  use serde::{Deserialize, Deserializer};
 
   #[cfg(feature = "serde")]
   impl<'de: 'src, 'src> Deserialize<'de> for Subscriber<'src> {
@@ -459,7 +459,7 @@ mod _serde {
       let t = _T::deserialize(deserializer)?;
       Ok(Subscriber {
         version: t.version,
-        months_n: t.months.parse().map_err(de::Error::custom)?,
+        months_n: t.months.parse().unwrap_or(1),
         months: t.months,
       })
     }
-- 
2.43.0


From 72aceb513adffbd4c963f3985d00e43d422f462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 09/15] fix: unescape the display name in USERSTATE

All other messages unescape display names.
---
 src/msg/user_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 69f8c99..80f910a 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -5,7 +5,9 @@
 //!
 //! For example, [`UserState::badges`] may be different from [`GlobalUserState::badges`][crate::msg::global_user_state::GlobalUserState::badges].
 
-use super::{is_not_empty, maybe_clone, parse_badges, split_comma, Badge, MessageParseError};
+use super::{
+  is_not_empty, maybe_clone, maybe_unescape, parse_badges, split_comma, Badge, MessageParseError,
+};
 use crate::irc::{Command, IrcMessageRef, Tag};
 use std::borrow::Cow;
 
@@ -73,7 +75,7 @@ impl<'src> UserState<'src> {
 
     Some(UserState {
       channel: message.channel()?.into(),
-      user_name: message.tag(Tag::DisplayName)?.into(),
+      user_name: maybe_unescape(message.tag(Tag::DisplayName)?),
       badges: message
         .tag(Tag::Badges)
         .zip(message.tag(Tag::BadgeInfo))
-- 
2.43.0


From fc5937785a9d64c0534065ca34009838be4d1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 10/15] fix: replacing U+2E1D in front of the first escape
 sequence

maybe_unescape replaced it only behind the first backslash, irc::unescape
replaces it everywhere.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 462587f..9cd6168 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,7 +59,7 @@ pub fn maybe_unescape<'a>(value: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
 #[inline]
 fn actually_unescape(input: &str, start: usize) -> String {
   let mut out = String::with_capacity(input.len());
-  out.push_str(&input[..start]);
+  out.push_str(&input[..start].replace('⸝', ","));
 
   let mut escape = false;
   for char in input[start..].chars() {
-- 
2.43.0


From 8e41d6a54757e0ac659e815ef57be8b9f4f23167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 11/15] fix: escape the values of client tags

---
 src/client/write.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/client/write.rs b/src/client/write.rs
index 502b7ff..c8a250a 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -1,7 +1,7 @@
 use super::{conn, Client};
 use crate::common::JoinIter;
 use std::convert::Infallible;
-use std::fmt::Display;
+use std::fmt::{Display, Write};
 use tokio::io;
 use tokio::io::{AsyncWriteExt, WriteHalf};
 
@@ -23,8 +23,18 @@ struct Tag<'a> {
 impl<'a> std::fmt::Display for Tag<'a> {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
     let Self { key, value } = self;
-    // TODO: handle escaping
-    write!(f, "{key}={value}")
+    write!(f, "{key}=")?;
+    for c in value.chars() {
+      match c {
+        ';' => f.write_str("\\:")?,
+        ' ' => f.write_str("\\s")?,
+        '\\' => f.write_str("\\\\")?,
+        '\r' => f.write_str("\\r")?,
+        '\n' => f.write_str("\\n")?,
+        c => f.write_char(c)?,
+      }
+    }
+    Ok(())
   }
 }
 
-- 
2.43.0


From db7a87a1b4041719b9e737f5b70d56d0fa231ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 12/15] fix: flush after sending a message

---
 src/client/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index c8a250a..90482a1 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -95,6 +95,7 @@ impl Client {
     let RawMessage { data } = s.try_into()?;
     trace!(data, "sending message");
     self.writer.write_all(data.as_bytes()).await?;
+    self.writer.flush().await?;
     Ok(())
   }
 
-- 
2.43.0


From 78165a44d745380961b715e1ebe855bffac9aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 13/15] fix: lines of a failed handshake sent again by the next
 one

---
 src/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index ed0421f..1927486 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -324,6 +324,8 @@ impl Client {
     let credentials = &self.config.credentials;
     const CAP: &str = "twitch.tv/commands twitch.tv/tags twitch.tv/membership";
     trace!("CAP REQ {CAP:?}; NICK {:?}; PASS ***", credentials.login);
+    // an earlier handshake may have failed before its lines were sent
+    self.scratch.clear();
     write!(&mut self.scratch, "CAP REQ :{CAP}\r\n").unwrap();
 
     let login = credentials.login.as_str();
-- 
2.43.0


From 88d42d18ba03eecfdb42f018247dc402a460ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 14/15] fix: panic on overflow of the reconnect delay

---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 1927486..c7eb1e5 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -291,7 +291,10 @@ impl Client {
       if let Some(tries) = &mut tries {
         *tries -= 1;
       }
-      delay = std::cmp::min(backoff.max_delay, delay * backoff.delay_multiplier);
+      delay = std::cmp::min(
+        backoff.max_delay,
+        delay.saturating_mul(backoff.delay_multiplier),
+      );
 
       trace!("opening connection to twitch");
       let stream = match conn::open(self.tls.clone()).timeout(timeout).await? {
-- 
2.43.0


From 0f79832c5cedce8115298d8e36d06f5f3361a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:35 +0000
Subject: [PATCH 15/15] fix: a reset connection counts as a disconnect

---
 src/client/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/read.rs b/src/client/read.rs
index 9b2e59a..dd4128c 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -42,7 +42,10 @@ impl RecvError {
       RecvError::Io(e)
         if matches!(
           e.kind(),
-          io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionAborted | io::ErrorKind::TimedOut
+          io::ErrorKind::UnexpectedEof
+            | io::ErrorKind::ConnectionAborted
+            | io::ErrorKind::ConnectionReset
+            | io::ErrorKind::TimedOut
         ) =>
       {
         true
-- 
2.43.0

