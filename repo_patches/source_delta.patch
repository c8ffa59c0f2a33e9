From ec49b8c2ab8fc29aa82ee077c0f2ebf1581f370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 01/18] sim: guarded knob for the packet identifier range (cfg
 ruq_sim, off by default)

---
 src/lib.rs    | 24 ++++++++++++++++++++++++
 src/pktids.rs |  5 +++++
 2 files changed, 29 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 74fc3b7..a455033 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `ruq_sim` is set only by simulation harnesses, see the `sim` module
+#![allow(unexpected_cfgs)]
+
 use std::collections::VecDeque;
 use std::io::{Error as IOError, ErrorKind, Result as IOResult};
 use std::pin::Pin;
@@ -307,6 +310,27 @@ mod mqtt_codec;
 mod pktids;
 mod protocol;
 
+/// Knobs for simulation harnesses. Compiled only with `--cfg ruq_sim`.
+#[cfg(ruq_sim)]
+pub mod sim {
+    use crate::protocol::PktId;
+    use std::cell::Cell;
+
+    thread_local! {
+        static PKTID_MAX: Cell<u16> = Cell::new(0);
+    }
+
+    /// Event loops that connect on this thread from now on use packet identifiers 1..=max,
+    /// or the whole range if max is zero.
+    pub fn set_pktid_max(max: u16) {
+        PKTID_MAX.with(|m| m.set(max));
+    }
+
+    pub(crate) fn pktid_max() -> Option<PktId> {
+        PKTID_MAX.with(|m| PktId::new(m.get()))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::protocol::FromMqttBytes;
diff --git a/src/pktids.rs b/src/pktids.rs
index 87b03cf..d82ff5d 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -17,6 +17,11 @@ enum Node {
 
 impl PktIds {
     pub(crate) fn new() -> Self {
+        #[cfg(ruq_sim)]
+        if let Some(max) = crate::sim::pktid_max() {
+            return Self::new_with_max(max);
+        }
+
         Self::new_with_max(PktId::new(u16::MAX).unwrap())
     }
 
-- 
2.43.0


From 53c3709c8ac6d7e0d345c7278c161841e2f8e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 02/18] fix: encode PUBACK instead of panicking on every
 incoming QoS 1 message

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 913ec90..ce1f35c 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -108,13 +108,13 @@ impl ToMqttBytes for Packet {
         match self {
             Self::Connect(p) => p.convert_to_mqtt(),
             Self::Publish(p) => p.convert_to_mqtt(),
+            Self::PubAck(p) => p.convert_to_mqtt(),
             Self::PingReq(p) => p.convert_to_mqtt(),
             Self::Subscribe(p) => p.convert_to_mqtt(),
             Self::Unsubscribe(p) => p.convert_to_mqtt(),
             Self::Disconnect(p) => p.convert_to_mqtt(),
             Self::PingResp(_) => unimplemented!("Client never sends this"),
             Self::Connack(_) => unimplemented!("Client never sends this"),
-            Self::PubAck(_) => unimplemented!("Client never sends this"),
             Self::SubAck(_) => unimplemented!("Client never sends this"),
             Self::UnsubAck(_) => unimplemented!("Client never sends this"),
         }
-- 
2.43.0


From a7d822790186438fee5f6f8862e111d0044e84a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 03/18] fix: read every property of a PUBACK, not only the
 first one

---
 src/protocol/puback.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/protocol/puback.rs b/src/protocol/puback.rs
index 6699e8d..99e47ec 100644
--- a/src/protocol/puback.rs
+++ b/src/protocol/puback.rs
@@ -166,11 +166,13 @@ mod properties {
             if bytelen == 0 {
                 Ok((Default::default(), bytes_consumed))
             } else {
-                let mut bytes = bytes.get(bytes_consumed..(bytes_consumed + bytelen));
+                let mut slice = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
 
                 let mut properties: PubackProperties = Default::default();
 
-                while let Some(slice) = bytes {
+                while slice.len() > 0 {
                     let bytes_read = match slice.get(0) {
                         Some(0x1F) => {
                             let (s, property_bytes_read) = String::convert_from_mqtt(&slice[1..])?;
@@ -193,7 +195,7 @@ mod properties {
                             return Err(ConvertError::NotEnoughBytes);
                         }
                     };
-                    bytes = slice.get((bytes_read + 1)..);
+                    slice = &slice[bytes_read..];
                 }
 
                 Ok((properties, bytes_consumed + bytelen))
-- 
2.43.0


From 62fed9528e2f80bf63c0077cd49dcd2bdc4fe721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 04/18] fix: a message expiry interval property takes five
 bytes, not four

---
 src/protocol/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index cad6c47..f362765 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -68,7 +68,7 @@ impl FromMqttBytes for Property {
                         })
                     })
                     .map(|slice| u32::from_be_bytes(slice))?;
-                Ok((MessageExpiryInterval(interval), 4))
+                Ok((MessageExpiryInterval(interval), 5))
             }
             Some(0x08) => {
                 let (s, bytes_consumed) = String::convert_from_mqtt(&bytes[1..])?;
-- 
2.43.0


From 224f521900bb45da1d2f5b5b17b95805db2202c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 05/18] fix: reject a five byte variable byte integer before
 its value overflows

---
 src/protocol/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index ce1f35c..657289b 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -278,14 +278,14 @@ impl FromMqttBytes for VBI {
             match bytes.get(idx) {
                 None => return Err(ConvertError::NotEnoughBytes),
                 Some(byte) => {
-                    value += (byte & 127) as u32 * multiplier;
-                    if multiplier > 128 * 128 * 128 {
+                    if idx >= 4 {
                         return Err(format!(
                             "Invalid VariableByteInteger exceeds 4 bytes, bytes = {:?}",
-                            &bytes[0..3]
+                            &bytes[0..4]
                         )
                         .into());
                     }
+                    value += (byte & 127) as u32 * multiplier;
                     multiplier *= 128;
                     idx += 1;
 
-- 
2.43.0


From f87344715ad22553967c425e13d0ac27adcdcae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 06/18] fix: do not index past the end of malformed packets

---
 src/protocol/connack.rs    | 16 +++++++++++++---
 src/protocol/disconnect.rs |  4 +++-
 src/protocol/mod.rs        |  5 ++++-
 src/protocol/properties.rs |  9 +++++++--
 src/protocol/suback.rs     | 10 ++++++++--
 src/protocol/unsuback.rs   | 10 ++++++++--
 6 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/protocol/connack.rs b/src/protocol/connack.rs
index 0a73890..7d68b72 100644
--- a/src/protocol/connack.rs
+++ b/src/protocol/connack.rs
@@ -108,10 +108,18 @@ impl FromMqttBytes for Connack {
             return Err(ConvertError::NotEnoughBytes);
         }
 
-        let flags: ConnackFlags = bytes[bytes_read].try_into()?;
+        let flags: ConnackFlags = bytes
+            .get(bytes_read)
+            .copied()
+            .ok_or(ConvertError::NotEnoughBytes)?
+            .try_into()?;
         bytes_read += 1;
 
-        let reason: ConnackReason = bytes[bytes_read].try_into()?;
+        let reason: ConnackReason = bytes
+            .get(bytes_read)
+            .copied()
+            .ok_or(ConvertError::NotEnoughBytes)?
+            .try_into()?;
         bytes_read += 1;
 
         let (properties, props_bytes_read) =
@@ -221,7 +229,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = ConnackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index 4cae4b4..b1fa2c3 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -277,7 +277,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = DisconnectProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 657289b..11e8322 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -405,7 +405,10 @@ impl FromMqttBytes for Vec<u8> {
             })
             .map(|slice| u16::from_be_bytes(slice))? as usize;
         if len > 0 {
-            let v = bytes[2..(2 + len)].to_owned();
+            let v = bytes
+                .get(2..(2 + len))
+                .ok_or(ConvertError::NotEnoughBytes)?
+                .to_owned();
             Ok((v, len + 2))
         } else {
             Ok((vec![], 2))
diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index f362765..9e6034b 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -57,7 +57,10 @@ impl ToMqttBytes for Property {
 impl FromMqttBytes for Property {
     fn convert_from_mqtt(bytes: &[u8]) -> Result<(Self, usize), ConvertError> {
         match bytes.get(0) {
-            Some(0x01) => Ok((PayloadFormatId(bytes[1]), 2)),
+            Some(0x01) => {
+                let id = bytes.get(1).ok_or(ConvertError::NotEnoughBytes)?;
+                Ok((PayloadFormatId(*id), 2))
+            }
             Some(0x02) => {
                 let interval = bytes
                     .get(1..5)
@@ -113,7 +116,9 @@ impl FromMqttBytes for Vec<Property> {
         if bytelen == 0 {
             Ok((vec![], bytes_consumed))
         } else {
-            let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+            let mut bytes = bytes
+                .get(bytes_consumed..(bytes_consumed + bytelen))
+                .ok_or(ConvertError::NotEnoughBytes)?;
             let mut properties = vec![];
             while bytes.len() > 0 {
                 let (prop, bytes_read) = Property::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/suback.rs b/src/protocol/suback.rs
index 77c1711..be8de37 100644
--- a/src/protocol/suback.rs
+++ b/src/protocol/suback.rs
@@ -34,7 +34,11 @@ impl FromMqttBytes for Suback {
             Vec::<properties::SubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: SubackReason = bytes[bytes_read].try_into()?;
+        let reason: SubackReason = bytes
+            .get(bytes_read)
+            .copied()
+            .ok_or(ConvertError::NotEnoughBytes)?
+            .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -163,7 +167,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = SubackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/unsuback.rs b/src/protocol/unsuback.rs
index c70a86a..95b0e94 100644
--- a/src/protocol/unsuback.rs
+++ b/src/protocol/unsuback.rs
@@ -34,7 +34,11 @@ impl FromMqttBytes for Unsuback {
             Vec::<properties::UnsubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: UnsubackReason = bytes[bytes_read].try_into()?;
+        let reason: UnsubackReason = bytes
+            .get(bytes_read)
+            .copied()
+            .ok_or(ConvertError::NotEnoughBytes)?
+            .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -153,7 +157,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = UnsubackProperty::convert_from_mqtt(bytes)?;
-- 
2.43.0


From 860f642097980ad1debe4cb5ef9c47f39e17a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 07/18] fix: end the session with an error on packets that are
 not supported, do not panic

---
 src/lib.rs          | 5 ++++-
 src/protocol/mod.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a455033..17c5db5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -217,7 +217,10 @@ async fn poll(
                                         mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                     }
                                     QoS::ExactlyOnce => {
-                                        todo!("Send pubrec");
+                                        return Err(IOError::new(
+                                            ErrorKind::InvalidData,
+                                            "Incoming messages with QoS 2 are not supported",
+                                        ));
                                     }
                                 }
 
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 11e8322..1c8ef5f 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -54,7 +54,10 @@ pub fn parse_pkt(data: &[u8]) -> Result<Option<Packet>, std::io::Error> {
         }
         ty => {
             info!("Received msg type = {:?}", ty);
-            unimplemented!("This is not impl");
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                format!("Packet type {:?} is not supported", ty),
+            ));
         }
     };
 
-- 
2.43.0


From 6b8054420fa87b9f4e74a47c85962ee5e3122c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 08/18] fix: a connection closed before CONNACK is an error,
 not an endless loop

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 17c5db5..0672d99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -130,9 +130,13 @@ async fn poll(
 
     mqtt_write.send(protocol::Packet::Connect(pkt)).await?;
 
-    let pkt = loop {
-        if let Some(pkt) = mqtt_read.next().await {
-            break pkt?;
+    let pkt = match mqtt_read.next().await {
+        Some(pkt) => pkt?,
+        None => {
+            return Err(IOError::new(
+                ErrorKind::UnexpectedEof,
+                "Connection closed before connack",
+            ))
         }
     };
     match pkt {
-- 
2.43.0


From c915ad8699b2c25cb379810c3c1cdd4148c636d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 09/18] fix: do not go on when the broker refuses the
 connection

---
 src/lib.rs          | 11 +++++++++--
 src/protocol/mod.rs |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0672d99..a8edcb5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,7 +20,7 @@ use tokio_util::codec::{FramedRead, FramedWrite};
 
 use log::{error, info, warn};
 
-use crate::protocol::{DisconnectReason, PktId, Publish};
+use crate::protocol::{ConnackReason, DisconnectReason, PktId, Publish};
 
 pub use crate::client::{Client, Notification, PublishBuilder};
 pub use crate::protocol::Property;
@@ -142,7 +142,7 @@ async fn poll(
     match pkt {
         protocol::Packet::Connack(p) => {
             info!("Received connack: {:?}", p);
-            // TODO: pkt must be a connack with ConnackReason::Success
+            let reason = p.reason();
             match sender.send(Notification::ConnAck(p)).await {
                 Ok(()) => {}
                 Err(e) => {
@@ -150,6 +150,13 @@ async fn poll(
                     // probably send disconnect without acking any incoming messages?
                 }
             }
+            match reason {
+                ConnackReason::Success => {}
+                reason => {
+                    let e = format!("Connection refused due to: {:?}", reason);
+                    return Err(IOError::new(ErrorKind::ConnectionRefused, e));
+                }
+            }
         }
         _ => {
             error!("Expected connack, received: {:?}", pkt);
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 1c8ef5f..20f8f74 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -3,7 +3,7 @@ use std::{
     num::NonZeroU16,
 };
 
-pub use connack::Connack;
+pub use connack::{Connack, ConnackReason};
 pub use connect::Connect;
 pub use disconnect::{Disconnect, DisconnectReason};
 pub use pingreq::PingReq;
-- 
2.43.0


From 9b613a60f8c51c42a90bde96910462a5fc5b84a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 10/18] fix: do not spin after the last client handle is
 dropped

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a8edcb5..02e94ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -174,6 +174,8 @@ async fn poll(
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
     // we should save this queue on disconnect and read from it first if user establishes new connection
     let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();
+    // set when all clients are dropped: there will be no more commands
+    let mut commands_closed = false;
 
     loop {
         tokio::select! {
@@ -252,7 +254,7 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next() => {
+            cmd = commands_rx.next(), if !commands_closed => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -299,7 +301,9 @@ async fn poll(
                             return Ok(());
                         }
                     }
-                    None => {}
+                    None => {
+                        commands_closed = true;
+                    }
                 }
             }
         }
-- 
2.43.0


From fd7d7d23102b40c9a25dc3e17869da9fe93dcf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 11/18] fix: packet id ranges survive exhaustion and repeated
 returns

---
 src/pktids.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/pktids.rs b/src/pktids.rs
index d82ff5d..f8a57e2 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -53,27 +53,17 @@ impl PktIds {
             } => {
                 let start = *range.start();
                 let end = *range.end();
-                let mut pktid = Some(start);
                 let mut new_node = None;
 
                 if start >= end {
-                    // this range is exhausted
-                    if let Some(Node::Vacant) = self.ranges.get(*next) {
-                        // if we have no next nodes and all pktids are in use
-                        // just set this node's range as exhausted
-                        *range = (start + 1)..=end;
-                        if start != end {
-                            pktid = None;
-                        }
-                    } else {
-                        // if we have next node - set this node as vacant and start using next node
-                        new_node = Some(Node::Vacant);
-                        self.start = *next;
-                    }
+                    // this range is exhausted, set this node as vacant and start using next node
+                    // if there is no next node, next is 0: that node is always vacant
+                    new_node = Some(Node::Vacant);
+                    self.start = *next;
                 } else {
                     *range = (start + 1)..=end;
                 }
-                (pktid, new_node)
+                (Some(start), new_node)
             }
         };
 
@@ -135,6 +125,13 @@ impl PktIds {
             }
             // insert new node between prev_idx and idx
             Some(prev_idx) => {
+                // maybe our id was returned already
+                if let Some(Node::Taken { range, .. }) = self.ranges.get(prev_idx) {
+                    if range.contains(&id) {
+                        return;
+                    }
+                }
+
                 // maybe prev node upper bound is just smaller by 1 than our id
                 // then just increase it by 1, no insertion needed
                 if self.maybe_extend_prev_node(prev_idx, id) {
-- 
2.43.0


From 23aa9d6a731990c746352a28b832bd285a031fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 12/18] fix: wait for a packet id when all are in use instead
 of panicking

---
 src/lib.rs    | 34 +++++++++++++++++++++++++++++-----
 src/pktids.rs |  4 ++++
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 02e94ae..1596d6a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -176,6 +176,8 @@ async fn poll(
     let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();
     // set when all clients are dropped: there will be no more commands
     let mut commands_closed = false;
+    // command that has to wait for a packet id because all of them are in use
+    let mut pending: Option<Command> = None;
 
     loop {
         tokio::select! {
@@ -254,7 +256,7 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next(), if !commands_closed => {
+            cmd = next_command(&mut pending, &mut commands_rx), if !commands_closed && (pending.is_none() || pktids.has_next()) => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -269,13 +271,19 @@ async fn poll(
                                             queue.push_back((pktid, Box::new(pkt.clone())));
                                             pkt
                                         }
-                                        None => todo!(),
+                                        None => {
+                                            pending = Some(Command::Publish { topic, payload, properties, qos, retain });
+                                            continue;
+                                        }
                                     }
                                 }
                                 QoS::ExactlyOnce => {
                                     match pktids.next_id() {
                                         Some(pktid) => protocol::Publish::exactly_once(topic, payload, retain, properties, pktid),
-                                        None => todo!(),
+                                        None => {
+                                            pending = Some(Command::Publish { topic, payload, properties, qos, retain });
+                                            continue;
+                                        }
                                     }
                                 }
                             };
@@ -284,14 +292,20 @@ async fn poll(
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Subscribe::new(&topic, pktid, qos),
-                                None => todo!(),
+                                None => {
+                                    pending = Some(Command::Subscribe(topic, qos));
+                                    continue;
+                                }
                             };
                             mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Unsubscribe::new(topics, pktid),
-                                None => todo!(),
+                                None => {
+                                    pending = Some(Command::Unsubscribe(topics));
+                                    continue;
+                                }
                             };
                             mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
                         }
@@ -310,6 +324,16 @@ async fn poll(
     }
 }
 
+async fn next_command(
+    pending: &mut Option<Command>,
+    commands_rx: &mut Receiver<Command>,
+) -> Option<Command> {
+    match pending.take() {
+        Some(cmd) => Some(cmd),
+        None => commands_rx.next().await,
+    }
+}
+
 pub(crate) enum Command {
     Publish {
         topic: String,
diff --git a/src/pktids.rs b/src/pktids.rs
index f8a57e2..ef2ae51 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -37,6 +37,10 @@ impl PktIds {
         }
     }
 
+    pub(crate) fn has_next(&self) -> bool {
+        matches!(self.ranges.get(self.start), Some(Node::Taken { .. }))
+    }
+
     pub(crate) fn next_id(&mut self) -> Option<PktId> {
         // take node out of vec
         let old_start = self.start;
-- 
2.43.0


From 06f94c3f2dab47d51a53264d6eb6f4cf8ffb694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 13/18] fix: only the matching ack of an outstanding request
 frees its packet id

---
 src/lib.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1596d6a..fb4f3dc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,7 +1,7 @@
 // `ruq_sim` is set only by simulation harnesses, see the `sim` module
 #![allow(unexpected_cfgs)]
 
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::io::{Error as IOError, ErrorKind, Result as IOResult};
 use std::pin::Pin;
 use std::task::Context;
@@ -174,6 +174,9 @@ async fn poll(
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
     // we should save this queue on disconnect and read from it first if user establishes new connection
     let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();
+    // ids of subscribes and unsubscribes that are not acked yet
+    let mut subscribes: HashSet<PktId> = HashSet::new();
+    let mut unsubscribes: HashSet<PktId> = HashSet::new();
     // set when all clients are dropped: there will be no more commands
     let mut commands_closed = false;
     // command that has to wait for a packet id because all of them are in use
@@ -208,21 +211,28 @@ async fn poll(
                                 pingresp_received = Some(true);
                             }
                             protocol::Packet::SubAck(m) => {
-                                pktids.return_id(m.pktid());
+                                if subscribes.remove(&m.pktid()) {
+                                    pktids.return_id(m.pktid());
+                                } else {
+                                    warn!("Failed to find subscribe to ack");
+                                }
                                 sender.send(Notification::SubAck(format!("{:?}", m))).await;
                             }
                             protocol::Packet::UnsubAck(m) => {
-                                pktids.return_id(m.pktid());
+                                if unsubscribes.remove(&m.pktid()) {
+                                    pktids.return_id(m.pktid());
+                                } else {
+                                    warn!("Failed to find unsubscribe to ack");
+                                }
                                 sender.send(Notification::UnsubAck(format!("{:?}", m))).await;
                             }
                             protocol::Packet::PubAck(m) => {
                                 if let Some(idx) = queue.iter().position(|(pktid, _)| *pktid == m.pktid()) {
                                     queue.remove(idx);
+                                    pktids.return_id(m.pktid());
                                 } else {
                                     warn!("Failed to find message to ack in the queue");
                                 }
-
-                                pktids.return_id(m.pktid());
                             }
                             protocol::Packet::Publish(m) => {
                                 match m.qos() {
@@ -291,7 +301,10 @@ async fn poll(
                         }
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
-                                Some(pktid) => protocol::Subscribe::new(&topic, pktid, qos),
+                                Some(pktid) => {
+                                    subscribes.insert(pktid);
+                                    protocol::Subscribe::new(&topic, pktid, qos)
+                                }
                                 None => {
                                     pending = Some(Command::Subscribe(topic, qos));
                                     continue;
@@ -301,7 +314,10 @@ async fn poll(
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
-                                Some(pktid) => protocol::Unsubscribe::new(topics, pktid),
+                                Some(pktid) => {
+                                    unsubscribes.insert(pktid);
+                                    protocol::Unsubscribe::new(topics, pktid)
+                                }
                                 None => {
                                     pending = Some(Command::Unsubscribe(topics));
                                     continue;
-- 
2.43.0


From b52433b37fb9c934a3d024f0c3f9cfb0d76b348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 14/18] fix: ack QoS 1 messages only after they are handed over

---
 src/lib.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb4f3dc..4567806 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -235,21 +235,24 @@ async fn poll(
                                 }
                             }
                             protocol::Packet::Publish(m) => {
-                                match m.qos() {
-                                    QoS::AtMostOnce => {},
-                                    QoS::AtLeastOnce => {
+                                if let QoS::ExactlyOnce = m.qos() {
+                                    return Err(IOError::new(
+                                        ErrorKind::InvalidData,
+                                        "Incoming messages with QoS 2 are not supported",
+                                    ));
+                                }
+
+                                // ack only after the message was handed over
+                                let handed_over = sender.send(Notification::Message(format!("{:?}", m))).await.is_ok();
+
+                                if let QoS::AtLeastOnce = m.qos() {
+                                    if handed_over {
                                         let pkt = protocol::Puback::new(m.pktid().unwrap());
                                         mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
-                                    }
-                                    QoS::ExactlyOnce => {
-                                        return Err(IOError::new(
-                                            ErrorKind::InvalidData,
-                                            "Incoming messages with QoS 2 are not supported",
-                                        ));
+                                    } else {
+                                        warn!("Failed to hand over message, not acking it");
                                     }
                                 }
-
-                                sender.send(Notification::Message(format!("{:?}", m))).await;
                             }
                             m => {
                                 sender.send(Notification::Message(format!("{:?}", m))).await;
-- 
2.43.0


From 6673aa40f10b90b70adf95012b874ab24cd594fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 15/18] fix: give the broker the whole interval to respond to a
 late ping

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4567806..3694ced 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -30,6 +30,8 @@ pub trait TCPConnectFuture: Future<Output = IOResult<TcpStream>> + Send {}
 
 impl<T> TCPConnectFuture for T where T: Future<Output = IOResult<TcpStream>> + Send {}
 
+const PING_INTERVAL: Duration = Duration::from_secs(8);
+
 struct MQTTFuture {
     f: Pin<Box<dyn Future<Output = IOResult<()>> + Send>>,
 }
@@ -164,10 +166,7 @@ async fn poll(
         }
     }
 
-    let mut ping = tokio::time::interval_at(
-        Instant::now() + Duration::from_secs(8),
-        Duration::from_secs(8),
-    );
+    let mut ping = tokio::time::interval_at(Instant::now() + PING_INTERVAL, PING_INTERVAL);
     let mut pingresp_received = None;
 
     let mut pktids = pktids::PktIds::new();
@@ -191,6 +190,8 @@ async fn poll(
                 let pkt = protocol::PingReq::new();
                 mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
                 pingresp_received = Some(false);
+                // if this tick was late or sending took long the broker still has the whole interval to respond
+                ping = tokio::time::interval_at(Instant::now() + PING_INTERVAL, PING_INTERVAL);
             }
             req = mqtt_read.next() => {
                 info!("Incoming req: {:?}", req);
-- 
2.43.0


From ee5548569685f30cd12e6cafa54faaf8eba7052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 16/18] fix: a ping response that arrived but was not read yet
 is not a timeout

---
 src/lib.rs | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3694ced..dff2866 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,7 @@ use std::task::Poll;
 
 use anyhow::{anyhow, Error as AnyError, Result as AnyResult};
 use futures::channel::mpsc::{Receiver, Sender};
+use futures::future::poll_fn;
 use futures::{Future, SinkExt, StreamExt};
 use pin_project::pin_project;
 use protocol::publish::Payload;
@@ -168,6 +169,9 @@ async fn poll(
 
     let mut ping = tokio::time::interval_at(Instant::now() + PING_INTERVAL, PING_INTERVAL);
     let mut pingresp_received = None;
+    // set when the next ping is due and the last one is not responded to:
+    // the response may be among the bytes that arrived and were not read yet
+    let mut ping_overdue = false;
 
     let mut pktids = pktids::PktIds::new();
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
@@ -183,9 +187,10 @@ async fn poll(
 
     loop {
         tokio::select! {
-            _ = ping.tick() => {
+            _ = ping.tick(), if !ping_overdue => {
                 if pingresp_received == Some(false) {
-                    return Err(IOError::new(ErrorKind::TimedOut, "PingResp timed out"))
+                    ping_overdue = true;
+                    continue;
                 }
                 let pkt = protocol::PingReq::new();
                 mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
@@ -193,7 +198,7 @@ async fn poll(
                 // if this tick was late or sending took long the broker still has the whole interval to respond
                 ping = tokio::time::interval_at(Instant::now() + PING_INTERVAL, PING_INTERVAL);
             }
-            req = mqtt_read.next() => {
+            req = next_packet(&mut mqtt_read, ping_overdue) => {
                 info!("Incoming req: {:?}", req);
                 match req {
                     Some(Ok(x)) => {
@@ -210,6 +215,10 @@ async fn poll(
                             },
                             protocol::Packet::PingResp(_) => {
                                 pingresp_received = Some(true);
+                                if ping_overdue {
+                                    ping_overdue = false;
+                                    ping = tokio::time::interval_at(Instant::now(), PING_INTERVAL);
+                                }
                             }
                             protocol::Packet::SubAck(m) => {
                                 if subscribes.remove(&m.pktid()) {
@@ -270,7 +279,7 @@ async fn poll(
                     }
                 }
             },
-            cmd = next_command(&mut pending, &mut commands_rx), if !commands_closed && (pending.is_none() || pktids.has_next()) => {
+            cmd = next_command(&mut pending, &mut commands_rx), if !ping_overdue && !commands_closed && (pending.is_none() || pktids.has_next()) => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -344,6 +353,33 @@ async fn poll(
     }
 }
 
+/// Next packet from the broker. If ping is overdue, only packets that already arrived are taken:
+/// when there are none left the broker is considered dead.
+async fn next_packet(
+    mqtt_read: &mut FramedRead<OwnedReadHalf, mqtt_codec::MqttCodec>,
+    ping_overdue: bool,
+) -> Option<IOResult<protocol::Packet>> {
+    if !ping_overdue {
+        return mqtt_read.next().await;
+    }
+
+    // look twice, reading may be put off once without regard to what has arrived
+    let mut last_look = false;
+    poll_fn(|cx| match mqtt_read.poll_next_unpin(cx) {
+        Poll::Ready(pkt) => Poll::Ready(pkt),
+        Poll::Pending if last_look => Poll::Ready(Some(Err(IOError::new(
+            ErrorKind::TimedOut,
+            "PingResp timed out",
+        )))),
+        Poll::Pending => {
+            last_look = true;
+            cx.waker().wake_by_ref();
+            Poll::Pending
+        }
+    })
+    .await
+}
+
 async fn next_command(
     pending: &mut Option<Command>,
     commands_rx: &mut Receiver<Command>,
-- 
2.43.0


From 28442a9d972d7480cbd9b8c919cdfd92f1c1a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 17/18] fix: refuse requests that cannot be encoded instead of
 sending a broken packet

---
 src/client.rs     | 49 ++++++++++++++++++++++++++++++++++++++++++++++-
 src/mqtt_codec.rs |  2 +-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 6307cba..69dec90 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -3,7 +3,8 @@ use futures::channel::mpsc::{channel, Receiver, Sender};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
 
-use crate::protocol::{Connack, Property};
+use crate::mqtt_codec;
+use crate::protocol::{Connack, Property, ToMqttBytes};
 use crate::{Payload, QoS};
 
 use super::*;
@@ -58,18 +59,21 @@ impl Client {
     }
 
     pub fn subscribe(&mut self, topic: &str, qos: QoS) -> Result<(), Error> {
+        check_str(topic)?;
         self.tx
             .try_send(Command::Subscribe(topic.to_owned(), qos))
             .with_context(|| "Subscribe chan send failed")
     }
 
     pub fn publish(&mut self, publish_builder: PublishBuilder) -> Result<(), Error> {
+        publish_builder.check()?;
         self.tx
             .try_send(publish_builder.build())
             .with_context(|| "Publish chan send failed")
     }
 
     pub fn unsubscribe(&mut self, topic: &str) -> Result<(), Error> {
+        check_str(topic)?;
         self.tx
             .try_send(Command::Unsubscribe(vec![topic.to_owned()]))
             .with_context(|| "Unsubscribe chan send failed")
@@ -82,6 +86,18 @@ impl Client {
     }
 }
 
+// length of strings and binary data is encoded in two bytes
+fn check_len(len: usize) -> Result<(), Error> {
+    if len > u16::MAX as usize {
+        return Err(anyhow!("String or binary data is too long: {}", len));
+    }
+    Ok(())
+}
+
+fn check_str(s: &str) -> Result<(), Error> {
+    check_len(s.len())
+}
+
 #[derive(Clone)]
 pub struct PublishBuilder {
     topic: String,
@@ -122,6 +138,37 @@ impl PublishBuilder {
         self
     }
 
+    /// Checks that the message can be encoded
+    fn check(&self) -> Result<(), Error> {
+        check_str(&self.topic)?;
+        for property in &self.properties {
+            match property {
+                Property::PayloadFormatId(_) | Property::MessageExpiryInterval(_) => {}
+                Property::ResponseTopic(s) => check_str(s)?,
+                Property::CorrelationData(b) => check_len(b.len())?,
+                Property::UserProperty(k, v) => {
+                    check_str(k)?;
+                    check_str(v)?;
+                }
+            }
+        }
+
+        let pktid_len = match self.qos {
+            None | Some(QoS::AtMostOnce) => 0,
+            Some(_) => 2,
+        };
+        let payload_len = match &self.payload {
+            Payload::String(s) => s.len(),
+            Payload::Bytes(b) => b.len(),
+        };
+        let properties_len = self.properties.as_slice().convert_to_mqtt().len();
+        let remaining_len = 2 + self.topic.len() + pktid_len + properties_len + payload_len;
+        if remaining_len > mqtt_codec::MAX as usize {
+            return Err(anyhow!("Packet is too long: {}", remaining_len));
+        }
+        Ok(())
+    }
+
     fn build(self) -> Command {
         Command::Publish {
             topic: self.topic,
diff --git a/src/mqtt_codec.rs b/src/mqtt_codec.rs
index 11a45c9..9d83da8 100644
--- a/src/mqtt_codec.rs
+++ b/src/mqtt_codec.rs
@@ -15,7 +15,7 @@ impl MqttCodec {
 // Packet size is 1 byte for fixed header + len of VBI (at most 4 bytes) + value of VBI for remaining len
 // And the maximum value of VBI is 268_435_455
 // https://docs.oasis-open.org/mqtt/mqtt/v5.0/os/mqtt-v5.0-os.html#_Toc3901011
-const MAX: u32 = 268_435_455;
+pub(crate) const MAX: u32 = 268_435_455;
 
 impl Decoder for MqttCodec {
     type Item = protocol::Packet;
-- 
2.43.0


From 9d0998e95fd7144ba7538474a062fe177a0b766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 18/18] fix: close both channels when the event loop ends, even
 if it is kept

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index dff2866..1ea072e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,6 +84,9 @@ where
                 match me.state.as_mut().project() {
                     ELProj::NotConnected { mut f } => match f.as_mut().poll(cx) {
                         Poll::Ready(Err(e)) => {
+                            // the event loop may be kept after it ended
+                            *me.commands_rx = None;
+                            me.notifications_tx.disconnect();
                             return Poll::Ready(Err(anyhow!(
                                 "Failed to connect, reason = {:?}",
                                 e
@@ -105,6 +108,8 @@ where
                                 me.commands_rx.take().unwrap(),
                                 me.notifications_tx.clone(),
                             ));
+                            // notifications end when the connection does
+                            me.notifications_tx.disconnect();
 
                             EventLoopState::MqttConnected {
                                 f: MQTTFuture { f: f },
-- 
2.43.0

