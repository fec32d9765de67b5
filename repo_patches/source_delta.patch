From c0e18344dd660b73fd8dc47f183fd2e6288c32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 01/18] fix: end the namespace of a packet at the first comma

The greedy match ran on to the last comma before a bracket, so a namespaced
packet whose arguments contain ",[" was split in the wrong place.
---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 6fe4642..10ce410 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/.+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From bc628ab8b9ef419e15ace5da7e4c55f4fec49bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 02/18] fix: reject ids and attachment counts that do not fit
 instead of panicking

---
 socket-io-protocol/src/socket/de.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 10ce410..4ef970e 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use owned_subslice::OwnedSubslice;
-use regex::Regex;
+use regex::{Match, Regex};
 use serde_json::value::RawValue;
 
 use super::{EngineMessage, Error, Kind, Packet, ProtocolKind};
@@ -61,6 +61,12 @@ fn parse_text(text: OwnedSubslice<String>) -> Result<Parse, Error> {
     let captures = DESERIALIZE_RE
         .captures(&*text)
         .ok_or_else(|| Error::InvalidMessage(text.to_string()))?;
+    // Digits only, so this fails just for numbers that are too large
+    let parse_u64 = |x: Match| {
+        x.as_str()
+            .parse::<u64>()
+            .map_err(|_| Error::InvalidMessage(text.to_string()))
+    };
     let kind = {
         use ProtocolKind::*;
         match *captures
@@ -80,9 +86,9 @@ fn parse_text(text: OwnedSubslice<String>) -> Result<Parse, Error> {
             _ => unreachable!(),
         }
     };
-    let attachments = captures.get(3).map(|x| x.as_str().parse::<u64>().unwrap());
+    let attachments = captures.get(3).map(&parse_u64).transpose()?;
     let namespace = captures.get(5).map(|x| x.range());
-    let id = captures.get(6).map(|x| x.as_str().parse::<u64>().unwrap());
+    let id = captures.get(6).map(&parse_u64).transpose()?;
     let args = match captures.get(7) {
         Some(m) => {
             let mut args = parse_args(m.as_str())?;
-- 
2.43.0


From 463b1da5e8d540308b7db050ea8589f01ab8728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 03/18] fix: keep the opening bracket when serializing the
 first argument fails

---
 socket-io-protocol/src/socket/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socket-io-protocol/src/socket/ser.rs b/socket-io-protocol/src/socket/ser.rs
index 2977cf8..66d7a2d 100644
--- a/socket-io-protocol/src/socket/ser.rs
+++ b/socket-io-protocol/src/socket/ser.rs
@@ -97,6 +97,7 @@ impl PacketBuilder {
         T: Serialize + ?Sized,
     {
         let start_pos = self.buffer.len();
+        let first = self.first;
         let mut cursor = Cursor::new(&mut self.buffer);
         cursor.set_position(start_pos as u64);
         if self.first {
@@ -119,6 +120,7 @@ impl PacketBuilder {
         if result.is_err() {
             self.buffer
                 .resize_with(start_pos, || panic!("shrinking vector"));
+            self.first = first;
         }
         result
     }
-- 
2.43.0


From 22e153ba361bc4054c4f5299cec85174cf7167ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 04/18] fix: do not emit the binary header as an element of a
 mixed sequence

---
 socket-io-protocol/src/socket/args/serialize_attachments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/serialize_attachments.rs b/socket-io-protocol/src/socket/args/serialize_attachments.rs
index 3a3bc94..e8d81e2 100644
--- a/socket-io-protocol/src/socket/args/serialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/serialize_attachments.rs
@@ -389,7 +389,7 @@ where
                 Err(_) => {
                     // The data isn't all u8's
                     let mut seq = s.take().unwrap().serialize_seq(*len)?;
-                    for b in data.iter() {
+                    for b in data.iter().skip(1) {
                         seq.serialize_element(b)?;
                     }
                     seq.serialize_element(&Wrapper {
-- 
2.43.0


From 932661bb5c71db00a3aaf420f98c9d9c57bbcffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 05/18] fix: refuse text messages before the open packet, as
 binary ones are

---
 socket-io-protocol/src/engine.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/socket-io-protocol/src/engine.rs b/socket-io-protocol/src/engine.rs
index a15e705..f1f38dc 100644
--- a/socket-io-protocol/src/engine.rs
+++ b/socket-io-protocol/src/engine.rs
@@ -119,11 +119,15 @@ impl Decoder {
                 }
             }
             '4' => {
-                let len = text.len();
-                Ok(Packet::Message(Message::Text(OwnedSubslice::new(
-                    text,
-                    1..len,
-                ))))
+                if self.state == State::Initial {
+                    Err(Error::MessageBeforeOpen)
+                } else {
+                    let len = text.len();
+                    Ok(Packet::Message(Message::Text(OwnedSubslice::new(
+                        text,
+                        1..len,
+                    ))))
+                }
             }
             _ => Err(invalid_msg()),
         }
-- 
2.43.0


From f6c982609bfd0b5e364d7494e90c34d284d2aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 06/18] fix: release the map of callbacks before calling one of
 them

The guard lived until the end of the if let, so a callback that used the
client deadlocked.
---
 socket-io-client/src/receiver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index e584da5..01a47ae 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -142,17 +142,19 @@ impl Receiver {
                 let event: Cow<'_, str> = event.deserialize()?;
                 let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));
                 // TODO: Use id to create ack callback
-                if let Some(mut cb) = self.callbacks.lock().unwrap().get_event(namespace, &*event) {
+                // Release the lock first, the callback may use the client
+                let cb = self.callbacks.lock().unwrap().get_event(namespace, &*event);
+                if let Some(mut cb) = cb {
                     cb.call(&args, ack);
                 }
             }
             Data::Ack { id, args } => {
-                if let Some(cb) = self
+                let cb = self
                     .callbacks
                     .lock()
                     .unwrap()
-                    .get_and_clear_ack(namespace, id)
-                {
+                    .get_and_clear_ack(namespace, id);
+                if let Some(cb) = cb {
                     cb.call(&args);
                 } else {
                     return Err(Error::UnexpectedAck(packet.clone()));
-- 
2.43.0


From b5e42d7129d0bd6a697bd60848bee16189b2ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 07/18] fix: report a connection that ends before the open
 packet instead of panicking

---
 socket-io-client/src/connection.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 769c42b..c8cc2d2 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -3,7 +3,11 @@ use std::{
     time::Duration,
 };
 
-use async_tungstenite::{async_tls, tungstenite::Message as WsMessage, WebSocketStream};
+use async_tungstenite::{
+    async_tls,
+    tungstenite::{Error as WsError, Message as WsMessage},
+    WebSocketStream,
+};
 use futures::{
     channel::{mpsc, oneshot},
     future::{FutureExt, RemoteHandle},
@@ -70,7 +74,14 @@ impl Connection {
         .await?;
 
         let open = select! {
-            open = open_rx.fuse() => Ok(open.unwrap()),
+            open = open_rx.fuse() => match open {
+                Ok(open) => Ok(open),
+                // The connection ended before it was opened
+                Err(_) => return Err(match handle.await {
+                    Ok(()) => WsError::ConnectionClosed.into(),
+                    Err(e) => e,
+                }),
+            },
             _ = timeout_fut => Err(Error::Timeout("engine.io protocol Open message")),
         }?;
         log::trace!("Received open: {:?}", open);
-- 
2.43.0


From 6a0d7586a0422bc97415203e10808f29ad68b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 08/18] fix: do not panic on arguments that are no json value
 or refer to missing attachments

---
 socket-io-protocol/src/socket/args/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/mod.rs b/socket-io-protocol/src/socket/args/mod.rs
index d816273..7f698fa 100644
--- a/socket-io-protocol/src/socket/args/mod.rs
+++ b/socket-io-protocol/src/socket/args/mod.rs
@@ -63,9 +63,9 @@ impl<'a> Args<'a> {
 
 impl<'a> Arg<'a> {
     pub fn to_json_value(&self) -> Result<Value, Error> {
-        // We can unwrap because if the json was going to fail to deserialize we would have failed
-        // to parse
-        let mut value = serde_json::from_str(self.arg).unwrap();
+        // The argument is known to be well formed, but may not be representable, e.g. 1e999
+        let mut value = serde_json::from_str(self.arg)
+            .map_err(|err| Error::JsonDeError(self.arg.to_string(), err))?;
         if !self.attachments.is_empty() {
             fill_placeholders_value(&mut value, &self.attachments)?;
         }
@@ -159,7 +159,10 @@ impl<'a> fmt::Display for Args<'a> {
 
 impl<'a> fmt::Display for Arg<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.to_json_value().unwrap())
+        match self.to_json_value() {
+            Ok(value) => write!(f, "{}", value),
+            Err(_) => write!(f, "{}", self.arg),
+        }
     }
 }
 
-- 
2.43.0


From 08fdece02f34aecf3d947c8baccc7108d9065be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 09/18] fix: allow acks without arguments

A server acknowledging without arguments sends an empty array, which ended the
connection; ours was sent without the array.
---
 socket-io-protocol/src/socket/de.rs  | 3 ++-
 socket-io-protocol/src/socket/ser.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 4ef970e..f5dd172 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -202,7 +202,8 @@ fn deserialize_event(
     name: &'static str,
     attachments: Vec<OwnedSubslice<Vec<u8>>>,
 ) -> Result<Packet, Error> {
-    if (kind == Kind::Ack && parse.id.is_none()) || parse.args.is_empty() {
+    // An event carries its name at least, an ack may have no arguments
+    if (kind == Kind::Ack && parse.id.is_none()) || (kind == Kind::Event && parse.args.is_empty()) {
         return Err(Error::MissingData(name, parse.message.to_string()));
     }
     if attachments.len() as u64 != parse.attachments.unwrap_or(0) {
diff --git a/socket-io-protocol/src/socket/ser.rs b/socket-io-protocol/src/socket/ser.rs
index 66d7a2d..b9deada 100644
--- a/socket-io-protocol/src/socket/ser.rs
+++ b/socket-io-protocol/src/socket/ser.rs
@@ -128,9 +128,10 @@ impl PacketBuilder {
     pub fn finish(self) -> Vec<WsMessage> {
         // This is safe because we've only written to this via write!, and json serialization
         let mut s = unsafe { String::from_utf8_unchecked(self.buffer) };
-        if !self.first {
-            s.push(']');
+        if self.first {
+            s.push('[');
         }
+        s.push(']');
         match self.approach {
             Approach::Normal => vec![engine::package_message(s)],
             Approach::Binary {
-- 
2.43.0


From 9716bfb78266516836fe8a4d5594acdf13820ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 10/18] fix: send the messages queued before close() ahead of
 closing

---
 socket-io-client/src/connection.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index c8cc2d2..f1891ff 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -173,6 +173,13 @@ where
             }
         }
         drop(next);
+        // Send what was queued before the close was requested
+        while let Some(Some(msgs)) = send_rx.next().now_or_never() {
+            for msg in msgs.into_iter() {
+                log::trace!("Sending websocket packet: {:?}", msg);
+                sink.send(msg).await?;
+            }
+        }
         let mut ws_stream = sink.reunite(stream).expect("Reunite should succeed");
         log::debug!("Sending close message");
         let _ = ws_stream.close(None).await;
-- 
2.43.0


From 9b019f3373358b9b314ae6a5703224f8e27a179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 11/18] fix: deserialize maps alike whether or not a packet has
 attachments

The first key of a map is read ahead to recognise placeholders, which failed for
keys with escapes and handed numeric keys on as strings.
---
 .../socket/args/deserialize_attachments.rs    | 137 ++++++++++++++++--
 1 file changed, 128 insertions(+), 9 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index c684fc7..ebca456 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -1,14 +1,14 @@
-use std::fmt;
+use std::{borrow::Cow, fmt, marker::PhantomData};
 
 use owned_subslice::OwnedSubslice;
 use paste::paste;
 use serde::{
     de::{
-        value::{BorrowedStrDeserializer, SeqDeserializer},
+        value::{CowStrDeserializer, SeqDeserializer},
         DeserializeSeed, EnumAccess, Error as DeError, MapAccess, SeqAccess, VariantAccess,
         Visitor,
     },
-    Deserialize, Deserializer,
+    forward_to_deserialize_any, Deserialize, Deserializer,
 };
 use serde_json::{Deserializer as JsonDeserializer, Error as JsonError};
 
@@ -97,7 +97,18 @@ where
 {
     map: M,
     buffers: Buffers<'a>,
-    first_key: Option<Option<&'a str>>,
+    first_key: Option<Option<Key<'a>>>,
+}
+
+/// A key read ahead, borrowed from the input unless it had to be unescaped.
+struct Key<'de>(Cow<'de, str>);
+
+struct KeyVisitor;
+
+/// Deserializes a key like serde_json does, i.e. also from numbers given as strings.
+struct KeyDeserializer<'de, E> {
+    key: Key<'de>,
+    error: PhantomData<E>,
 }
 
 macro_rules! deserialize_forward {
@@ -288,11 +299,11 @@ where
     where
         A: MapAccess<'de>,
     {
-        let key: Option<&'de str> = map.next_key()?;
-        if key == Some("_placeholder") {
+        let key: Option<Key<'de>> = map.next_key()?;
+        if key.as_ref().map(|key| &*key.0) == Some("_placeholder") {
             let _: bool = map.next_value()?;
-            let next_key: Option<&'de str> = map.next_key()?;
-            if next_key != Some("num") {
+            let next_key: Option<Key<'de>> = map.next_key()?;
+            if next_key.as_ref().map(|key| &*key.0) != Some("num") {
                 return Err(A::Error::custom("_placeholder key present without num key"));
             }
             let num: u64 = map.next_value()?;
@@ -424,7 +435,10 @@ where
     {
         if let Some(key) = self.first_key.take() {
             if let Some(key) = key {
-                let deserializer = BorrowedStrDeserializer::new(key);
+                let deserializer = KeyDeserializer {
+                    key,
+                    error: PhantomData,
+                };
                 seed.deserialize(deserializer).map(Some)
             } else {
                 Ok(None)
@@ -447,6 +461,111 @@ where
     }
 }
 
+impl<'de> Visitor<'de> for KeyVisitor {
+    type Value = Key<'de>;
+
+    fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
+        formatter.write_str("a string")
+    }
+
+    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Key<'de>, E> {
+        Ok(Key(Cow::Borrowed(v)))
+    }
+
+    fn visit_str<E>(self, v: &str) -> Result<Key<'de>, E> {
+        Ok(Key(Cow::Owned(v.to_string())))
+    }
+}
+
+impl<'de> Deserialize<'de> for Key<'de> {
+    fn deserialize<D>(d: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        d.deserialize_str(KeyVisitor)
+    }
+}
+
+macro_rules! deserialize_key_parsed {
+    ($($ty:ident , )*) => {
+        $(
+            paste!{
+                fn [<deserialize_ $ty>]<V>(self, visitor: V) -> Result<V::Value, E>
+                where
+                    V: Visitor<'de>
+                {
+                    let value = serde_json::from_str(&self.key.0).map_err(E::custom)?;
+                    visitor.[<visit_ $ty>](value)
+                }
+            }
+        )*
+    };
+}
+
+impl<'de, E> Deserializer<'de> for KeyDeserializer<'de, E>
+where
+    E: DeError,
+{
+    type Error = E;
+
+    deserialize_key_parsed! {
+        bool,
+        i8,
+        i16,
+        i32,
+        i64,
+        i128,
+        u8,
+        u16,
+        u32,
+        u64,
+        u128,
+        f32,
+        f64,
+    }
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key.0 {
+            Cow::Borrowed(key) => visitor.visit_borrowed_str(key),
+            Cow::Owned(key) => visitor.visit_string(key),
+        }
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(self, _: &'static str, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _: &'static str,
+        _: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_enum(CowStrDeserializer::new(self.key.0))
+    }
+
+    forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple
+        tuple_struct map struct identifier ignored_any
+    }
+}
+
 impl<'b, T> DeserializeSeed<'b> for BinarySeed<'b, T>
 where
     T: DeserializeSeed<'b>,
-- 
2.43.0


From 03afc9e8b28af9bd10ece6e74cbdc743acf76bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:46 +0000
Subject: [PATCH 12/18] fix: clip the end of a subslice without overflowing

---
 owned_subslice/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owned_subslice/src/lib.rs b/owned_subslice/src/lib.rs
index 82c6f52..d8afd6a 100644
--- a/owned_subslice/src/lib.rs
+++ b/owned_subslice/src/lib.rs
@@ -24,7 +24,7 @@ where
 
     pub fn subslice(self, range: Range<usize>) -> Self {
         let start = self.range.start + range.start;
-        let end = std::cmp::min(self.range.start + range.end, self.range.end);
+        let end = std::cmp::min(self.range.start.saturating_add(range.end), self.range.end);
         OwnedSubslice {
             data: self.data,
             range: Range { start, end },
-- 
2.43.0


From 7ce2162e05f139917d8d3216f453049cd235c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:46 +0000
Subject: [PATCH 13/18] fix: accept line feeds between the arguments of a
 packet

---
 socket-io-protocol/src/socket/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index f5dd172..ef8fb68 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,8 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        // (?s): json may contain line feeds between its tokens
+        let pattern = r#"(?s)^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From 60e694e8d01c92b538d2bfd1ab91a59a37f6a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 14/18] fix: refuse an attachment count in packets that are not
 binary

---
 socket-io-protocol/src/socket/de.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index ef8fb68..ff69c29 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -136,10 +136,11 @@ fn deserialize_text(text: OwnedSubslice<String>) -> Result<DeserializeResult, Er
         }
         ProtocolKind::Disconnect => deserialize_dataless(parse, Kind::Disconnect, "disconnect")
             .map(DeserializeResult::Packet),
-        ProtocolKind::Event => deserialize_event(parse, Kind::Event, "event", Vec::new())
-            .map(DeserializeResult::Packet),
+        ProtocolKind::Event => {
+            deserialize_text_only(parse, Kind::Event, "event").map(DeserializeResult::Packet)
+        }
         ProtocolKind::Ack => {
-            deserialize_event(parse, Kind::Ack, "ack", Vec::new()).map(DeserializeResult::Packet)
+            deserialize_text_only(parse, Kind::Ack, "ack").map(DeserializeResult::Packet)
         }
         ProtocolKind::BinaryEvent => deserialize_binary(parse, Kind::Event, "binary event"),
         ProtocolKind::BinaryAck => deserialize_binary(parse, Kind::Ack, "binary ack"),
@@ -160,6 +161,14 @@ fn deserialize_dataless(parse: Parse, kind: Kind, name: &'static str) -> Result<
     })
 }
 
+fn deserialize_text_only(parse: Parse, kind: Kind, name: &'static str) -> Result<Packet, Error> {
+    // Only binary packets declare a number of attachments
+    if parse.attachments.is_some() {
+        return Err(Error::InvalidExtraData(name, parse.message.to_string()));
+    }
+    deserialize_event(parse, kind, name, Vec::new())
+}
+
 fn deserialize_binary(
     parse: Parse,
     kind: Kind,
-- 
2.43.0


From ad0662b866471e6d600a70d6d35a46307d2225ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 15/18] fix: let placeholders give the fields of tuple
 variants, as they do of tuples

---
 .../socket/args/deserialize_attachments.rs    | 39 +++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index ebca456..269c90c 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -91,6 +91,15 @@ where
     buffers: Buffers<'a>,
 }
 
+struct TupleSeed<'a, V>
+where
+    V: Visitor<'a>,
+{
+    len: usize,
+    visitor: V,
+    buffers: Buffers<'a>,
+}
+
 struct BinaryMapAccess<'a, M>
 where
     M: MapAccess<'a>,
@@ -394,14 +403,12 @@ where
     where
         T: Visitor<'de>,
     {
-        self.variant.tuple_variant(
+        // Like tuples, the fields may be given by a placeholder
+        self.variant.newtype_variant_seed(TupleSeed {
             len,
-            BinaryVisitor {
-                visitor,
-                buffers: self.buffers,
-                access_type: AccessType::Seq,
-            },
-        )
+            visitor,
+            buffers: self.buffers,
+        })
     }
 
     fn struct_variant<T>(
@@ -423,6 +430,24 @@ where
     }
 }
 
+impl<'de, V> DeserializeSeed<'de> for TupleSeed<'de, V>
+where
+    V: Visitor<'de>,
+{
+    type Value = V::Value;
+
+    fn deserialize<D>(self, d: D) -> Result<V::Value, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        BinaryDeserializer {
+            d,
+            buffers: self.buffers,
+        }
+        .deserialize_tuple(self.len, self.visitor)
+    }
+}
+
 impl<'de, M> MapAccess<'de> for BinaryMapAccess<'de, M>
 where
     M: MapAccess<'de>,
-- 
2.43.0


From 6780c56ae3df5ea4df5c8bbf1dcbd41ebd4c0e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 16/18] fix: do not ignore the rest of an argument in packets
 with attachments

---
 .../src/socket/args/deserialize_attachments.rs               | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 269c90c..a95aa7a 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -33,7 +33,10 @@ where
 {
     let mut d = JsonDeserializer::from_str(arg);
     let deserializer = BinaryDeserializer { d: &mut d, buffers };
-    T::deserialize(deserializer)
+    let value = T::deserialize(deserializer)?;
+    // Nothing of the argument may be left, e.g. the .5 of 1.5 as an i128
+    d.end()?;
+    Ok(value)
 }
 
 enum AccessType {
-- 
2.43.0


From a1ee8052c78bc4f816b27bde34ae1514028976c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 17/18] fix: read the first key of a map like serde_json reads
 the others

---
 .../src/socket/args/deserialize_attachments.rs        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index a95aa7a..16458fe 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -522,8 +522,15 @@ macro_rules! deserialize_key_parsed {
                 where
                     V: Visitor<'de>
                 {
-                    let value = serde_json::from_str(&self.key.0).map_err(E::custom)?;
-                    visitor.[<visit_ $ty>](value)
+                    // As in serde_json, neither escapes nor blanks belong to such a key
+                    let key = match self.key.0 {
+                        Cow::Borrowed(key) if key.trim() == key => key,
+                        _ => return Err(E::custom("invalid key")),
+                    };
+                    let mut d = JsonDeserializer::from_str(key);
+                    let value = d.[<deserialize_ $ty>](visitor).map_err(E::custom)?;
+                    d.end().map_err(E::custom)?;
+                    Ok(value)
                 }
             }
         )*
-- 
2.43.0


From b4e3351a0f82d329129922058d1d08277a5c4ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 18/18] fix: run no callback after the client has been dropped

When the client is dropped from within a callback, or on another thread while
the connection task is running, the task went on delivering what it had
received already. Let go of the callbacks when the client is dropped.
---
 socket-io-client/src/connection.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index f1891ff..001f80f 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -1,4 +1,5 @@
 use std::{
+    mem,
     sync::{Arc, Mutex},
     time::Duration,
 };
@@ -29,6 +30,7 @@ pub struct Connection {
     close: Option<oneshot::Sender<()>>,
     sid: String,
     send: mpsc::UnboundedSender<Vec<WsMessage>>,
+    callbacks: Arc<Mutex<Callbacks>>,
     timeout: Duration,
 }
 
@@ -68,7 +70,7 @@ impl Connection {
             send_rx,
             close_rx,
             open_tx,
-            callbacks,
+            callbacks.clone(),
             spawn,
         )
         .await?;
@@ -91,6 +93,7 @@ impl Connection {
             close: Some(close_tx),
             sid: open.sid,
             send: send_tx,
+            callbacks,
             timeout,
         })
     }
@@ -117,6 +120,17 @@ impl Connection {
     }
 }
 
+impl Drop for Connection {
+    fn drop(&mut self) {
+        // The task may be in the middle of what it received, it must not call anything anymore
+        let callbacks = self
+            .callbacks
+            .lock()
+            .map(|mut callbacks| mem::replace(&mut *callbacks, Callbacks::new()));
+        drop(callbacks);
+    }
+}
+
 async fn process_websocket<S>(
     stream: WebSocketStream<S>,
     send_tx: mpsc::UnboundedSender<Vec<WsMessage>>,
-- 
2.43.0

