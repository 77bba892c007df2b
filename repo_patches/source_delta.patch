From 8cc47e34843a61d7cc49d8ff283bb4c21a409d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 01/11] fix: matches() must not panic on a topic starting with
 a multi-byte character

---
 src/topic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topic.rs b/src/topic.rs
index ea76373..e740f7f 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -53,7 +53,7 @@ pub fn valid_filter(filter: &str) -> bool {
 /// **NOTE**: make sure a topic is validated during a publish and filter is validated
 /// during a subscribe
 pub fn matches(topic: &str, filter: &str) -> bool {
-    if !topic.is_empty() && topic[..1].contains('$') {
+    if topic.starts_with('$') {
         return false;
     }
 
-- 
2.43.0


From 3656694aa265da9508bedba63393389ff1540d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 02/11] fix: Connect::write must patch its own flags in a
 non-empty buffer and report its full size

---
 src/v4/connect.rs | 4 ++--
 src/v5/connect.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index e92d700..a82d6bf 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -111,7 +111,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = buffer.len();
 
         let mut connect_flags = 0;
         if self.clean_session {
@@ -132,7 +132,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index c0f4397..75e97ba 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -133,7 +133,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = buffer.len();
 
         let mut connect_flags = 0;
         if self.clean_session {
@@ -162,7 +162,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
-- 
2.43.0


From d596bc5c7b2040f21f517e3e72bf2578cc7c2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 03/11] fix: v5 ConnAck without properties must still carry its
 property length

---
 src/v5/connack.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 36391f4..9dfacca 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -56,6 +56,9 @@ impl ConnAck {
             let properties_len = properties.len();
             let properties_len_len = len_len(properties_len);
             len += properties_len_len + properties_len;
+        } else {
+            // just 1 byte representing 0 len
+            len += 1;
         }
 
         len
@@ -87,9 +90,12 @@ impl ConnAck {
         buffer.put_u8(self.session_present as u8);
         buffer.put_u8(self.code as u8);
 
-        if let Some(properties) = &self.properties {
-            properties.write(buffer)?;
-        }
+        match &self.properties {
+            Some(properties) => properties.write(buffer)?,
+            None => {
+                write_remaining_length(buffer, 0)?;
+            }
+        };
 
         Ok(1 + count + len)
     }
-- 
2.43.0


From c1b61437a9c46410a50786d23e32df35a0b3b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 04/11] fix: v5 Disconnect must read its short forms and keep
 its reason with empty properties

---
 src/v5/disconnect.rs | 14 +++++++++++---
 src/v5/mod.rs        |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 4e12360..ec5838e 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -263,7 +263,7 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // No reason code and no properties
         }
 
         let mut length = 0;
@@ -305,6 +305,14 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // No properties if there is only a reason code
+        if fixed_header.remaining_len == 1 {
+            return Ok(Self {
+                reason_code: reason_code.try_into()?,
+                properties: None,
+            });
+        }
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
@@ -318,10 +326,10 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
+        if length == 0 {
             buffer.put_u8(0x00);
 
-            return Ok(length);
+            return Ok(2);
         }
 
         let len_len = write_remaining_length(buffer, length)?;
diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 28dcfbb..1177657 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -127,6 +127,10 @@ pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
         return match packet_type {
             PacketType::PingReq => Ok(Packet::PingReq),
             PacketType::PingResp => Ok(Packet::PingResp),
+            PacketType::Disconnect => Ok(Packet::Disconnect(Disconnect::read(
+                fixed_header,
+                packet.freeze(),
+            )?)),
             _ => Err(Error::PayloadRequired),
         };
     }
-- 
2.43.0


From 6c65e4b217a6c918a8e1fcb2d7c7a49785f4b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 05/11] fix: subscription identifiers must not be counted twice
 in a property section

---
 src/v5/publish.rs   | 2 +-
 src/v5/subscribe.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 166eb32..4d916f6 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -233,7 +233,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 83f0664..94bf7c8 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -191,8 +191,7 @@ impl SubscribeProperties {
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
-                    // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id)
                 }
-- 
2.43.0


From 2d14f5beef86761cb26e74885bd0f93cfd8842c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 06/11] fix: v5 Unsubscribe::read must not print to stderr

---
 src/v5/unsubscribe.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 201b79a..e2e5b2c 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -42,7 +42,6 @@ impl Unsubscribe {
         bytes.advance(variable_header_index);
 
         let pkid = read_u16(&mut bytes)?;
-        dbg!(pkid);
         let properties = UnsubscribeProperties::extract(&mut bytes)?;
 
         let mut filters = Vec::with_capacity(1);
-- 
2.43.0


From fabb59c5fb5f0e79ca9cdab077210631acf126e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 07/11] fix: v5 properties must end where their section ends,
 and never ask for more bytes

---
 src/v5/connack.rs     |  6 +++---
 src/v5/connect.rs     | 12 ++++++------
 src/v5/disconnect.rs  |  9 ++++-----
 src/v5/mod.rs         | 22 ++++++++++++++++++++++
 src/v5/puback.rs      |  6 +++---
 src/v5/pubcomp.rs     |  6 +++---
 src/v5/publish.rs     |  8 ++++----
 src/v5/pubrec.rs      |  6 +++---
 src/v5/pubrel.rs      |  6 +++---
 src/v5/suback.rs      |  6 +++---
 src/v5/subscribe.rs   |  8 ++++----
 src/v5/unsuback.rs    |  6 +++---
 src/v5/unsubscribe.rs |  6 +++---
 13 files changed, 64 insertions(+), 43 deletions(-)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 9dfacca..d01a96f 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -219,7 +219,7 @@ impl ConnAckProperties {
         len
     }
 
-    pub fn extract(mut bytes: &mut Bytes) -> Result<Option<ConnAckProperties>, Error> {
+    pub fn extract(bytes: &mut Bytes) -> Result<Option<ConnAckProperties>, Error> {
         let mut session_expiry_interval = None;
         let mut receive_max = None;
         let mut max_qos = None;
@@ -238,8 +238,8 @@ impl ConnAckProperties {
         let mut authentication_method = None;
         let mut authentication_data = None;
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 75e97ba..c8abde7 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -304,7 +304,7 @@ impl WillProperties {
         len
     }
 
-    fn read(mut bytes: &mut Bytes) -> Result<Option<WillProperties>, Error> {
+    fn read(bytes: &mut Bytes) -> Result<Option<WillProperties>, Error> {
         let mut delay_interval = None;
         let mut payload_format_indicator = None;
         let mut message_expiry_interval = None;
@@ -313,8 +313,8 @@ impl WillProperties {
         let mut correlation_data = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
@@ -515,7 +515,7 @@ impl ConnectProperties {
         }
     }
 
-    fn read(mut bytes: &mut Bytes) -> Result<Option<ConnectProperties>, Error> {
+    fn read(bytes: &mut Bytes) -> Result<Option<ConnectProperties>, Error> {
         let mut session_expiry_interval = None;
         let mut receive_maximum = None;
         let mut max_packet_size = None;
@@ -526,8 +526,8 @@ impl ConnectProperties {
         let mut authentication_method = None;
         let mut authentication_data = None;
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index ec5838e..c87f8c6 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -4,7 +4,7 @@ use bytes::{BufMut, BytesMut};
 
 use crate::*;
 
-use super::{property, PropertyType};
+use super::{property, property_section, PropertyType};
 
 #[derive(Debug, Clone, Copy, PartialEq)]
 #[repr(u8)]
@@ -166,10 +166,9 @@ impl DisconnectProperties {
         length
     }
 
-    pub fn extract(mut bytes: &mut Bytes) -> Result<Option<Self>, Error> {
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-
-        bytes.advance(properties_len_len);
+    pub fn extract(bytes: &mut Bytes) -> Result<Option<Self>, Error> {
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
 
         if properties_len == 0 {
             return Ok(None);
diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 1177657..6af4e51 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -114,6 +114,28 @@ fn property(num: u8) -> Result<PropertyType, Error> {
     Ok(property)
 }
 
+/// Reads a variable byte integer inside a packet. The packet is already complete,
+/// so running out of bytes is an error and not a reason to wait for more of them
+fn property_length(bytes: &Bytes) -> Result<(usize, usize), Error> {
+    match length(bytes.iter()) {
+        Err(Error::InsufficientBytes(_)) => Err(Error::MalformedPacket),
+        result => result,
+    }
+}
+
+/// Splits off the property section at the front of `bytes`, so that reading
+/// properties can't cross the promised property length
+fn property_section(bytes: &mut Bytes) -> Result<Bytes, Error> {
+    let (len_len, len) = property_length(bytes)?;
+    bytes.advance(len_len);
+
+    if len > bytes.len() {
+        return Err(Error::BoundaryCrossed(len));
+    }
+
+    Ok(bytes.split_to(len))
+}
+
 /// Reads a stream of bytes and extracts next MQTT packet out of it
 pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
     let fixed_header = check(stream.iter(), max_size)?;
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 5113194..54cb584 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -128,12 +128,12 @@ impl PubAckProperties {
         len
     }
 
-    pub fn extract(mut bytes: &mut Bytes) -> Result<Option<PubAckProperties>, Error> {
+    pub fn extract(bytes: &mut Bytes) -> Result<Option<PubAckProperties>, Error> {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 73c019a..bc90056 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -116,12 +116,12 @@ impl PubCompProperties {
         len
     }
 
-    pub fn extract(mut bytes: &mut Bytes) -> Result<Option<PubCompProperties>, Error> {
+    pub fn extract(bytes: &mut Bytes) -> Result<Option<PubCompProperties>, Error> {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 4d916f6..857c81b 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -180,7 +180,7 @@ impl PublishProperties {
         len
     }
 
-    fn extract(mut bytes: &mut Bytes) -> Result<Option<PublishProperties>, Error> {
+    fn extract(bytes: &mut Bytes) -> Result<Option<PublishProperties>, Error> {
         let mut payload_format_indicator = None;
         let mut message_expiry_interval = None;
         let mut topic_alias = None;
@@ -190,8 +190,8 @@ impl PublishProperties {
         let mut subscription_identifiers = Vec::new();
         let mut content_type = None;
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
@@ -232,7 +232,7 @@ impl PublishProperties {
                     user_properties.push((key, value));
                 }
                 PropertyType::SubscriptionIdentifier => {
-                    let (id_len, id) = length(bytes.iter())?;
+                    let (id_len, id) = property_length(&bytes)?;
                     cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index a9b0ba0..b55751b 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -124,12 +124,12 @@ impl PubRecProperties {
         len
     }
 
-    pub fn extract(mut bytes: &mut Bytes) -> Result<Option<PubRecProperties>, Error> {
+    pub fn extract(bytes: &mut Bytes) -> Result<Option<PubRecProperties>, Error> {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index e18b465..8dafec1 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -115,12 +115,12 @@ impl PubRelProperties {
         len
     }
 
-    pub fn extract(mut bytes: &mut Bytes) -> Result<Option<PubRelProperties>, Error> {
+    pub fn extract(bytes: &mut Bytes) -> Result<Option<PubRelProperties>, Error> {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 1c8d541..2ff5f76 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -105,12 +105,12 @@ impl SubAckProperties {
         len
     }
 
-    pub fn extract(mut bytes: &mut Bytes) -> Result<Option<SubAckProperties>, Error> {
+    pub fn extract(bytes: &mut Bytes) -> Result<Option<SubAckProperties>, Error> {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 94bf7c8..51b1bb0 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -171,12 +171,12 @@ impl SubscribeProperties {
         len
     }
 
-    pub fn extract(mut bytes: &mut Bytes) -> Result<Option<SubscribeProperties>, Error> {
+    pub fn extract(bytes: &mut Bytes) -> Result<Option<SubscribeProperties>, Error> {
         let mut id = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
 
         if properties_len == 0 {
             return Ok(None);
@@ -190,7 +190,7 @@ impl SubscribeProperties {
 
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
-                    let (id_len, sub_id) = length(bytes.iter())?;
+                    let (id_len, sub_id) = property_length(&bytes)?;
                     cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id)
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 83e7f0d..4d54cdc 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -116,12 +116,12 @@ impl UnsubAckProperties {
         len
     }
 
-    pub fn extract(mut bytes: &mut Bytes) -> Result<Option<UnsubAckProperties>, Error> {
+    pub fn extract(bytes: &mut Bytes) -> Result<Option<UnsubAckProperties>, Error> {
         let mut reason_string = None;
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
         if properties_len == 0 {
             return Ok(None);
         }
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index e2e5b2c..c2321ed 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -100,11 +100,11 @@ impl UnsubscribeProperties {
         len
     }
 
-    fn extract(mut bytes: &mut Bytes) -> Result<Option<UnsubscribeProperties>, Error> {
+    fn extract(bytes: &mut Bytes) -> Result<Option<UnsubscribeProperties>, Error> {
         let mut user_properties = Vec::new();
 
-        let (properties_len_len, properties_len) = length(bytes.iter())?;
-        bytes.advance(properties_len_len);
+        let mut bytes = property_section(bytes)?;
+        let properties_len = bytes.len();
 
         if properties_len == 0 {
             return Ok(None);
-- 
2.43.0


From b1036de94d215e870ad0102eca7f4e4c24d799b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 08/11] fix: v5 Connect with protocol level 4 must use the
 3.1.1 layout

---
 src/v5/connect.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index c8abde7..bc8447f 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -52,6 +52,8 @@ impl Connect {
                               + 2; // keep alive
 
         match &self.properties {
+            // no properties in the 3.1.1 layout
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -67,7 +69,7 @@ impl Connect {
 
         // last will len
         if let Some(last_will) = &self.last_will {
-            len += last_will.len();
+            len += last_will.len(self.protocol);
         }
 
         // username and password len
@@ -106,7 +108,7 @@ impl Connect {
         };
 
         let client_id = read_mqtt_string(&mut bytes)?;
-        let last_will = LastWill::read(connect_flags, &mut bytes)?;
+        let last_will = LastWill::read(protocol, connect_flags, &mut bytes)?;
         let login = Login::read(connect_flags, &mut bytes)?;
 
         let connect = Connect {
@@ -144,6 +146,7 @@ impl Connect {
         buffer.put_u16(self.keep_alive);
 
         match &self.properties {
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
@@ -153,7 +156,7 @@ impl Connect {
         write_mqtt_string(buffer, &self.client_id);
 
         if let Some(last_will) = &self.last_will {
-            connect_flags |= last_will.write(buffer)?;
+            connect_flags |= last_will.write(self.protocol, buffer)?;
         }
 
         if let Some(login) = &self.login {
@@ -192,10 +195,12 @@ impl LastWill {
         }
     }
 
-    fn len(&self) -> usize {
+    fn len(&self, protocol: Protocol) -> usize {
         let mut len = 0;
 
         match &self.properties {
+            // no will properties in the 3.1.1 layout
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -211,7 +216,11 @@ impl LastWill {
         len
     }
 
-    fn read(connect_flags: u8, mut bytes: &mut Bytes) -> Result<Option<LastWill>, Error> {
+    fn read(
+        protocol: Protocol,
+        connect_flags: u8,
+        mut bytes: &mut Bytes,
+    ) -> Result<Option<LastWill>, Error> {
         let last_will = match connect_flags & 0b100 {
             0 if (connect_flags & 0b0011_1000) != 0 => {
                 return Err(Error::IncorrectPacketFormat);
@@ -219,7 +228,10 @@ impl LastWill {
             0 => None,
             _ => {
                 // Properties in variable header
-                let properties = WillProperties::read(&mut bytes)?;
+                let properties = match protocol {
+                    Protocol::V5 => WillProperties::read(&mut bytes)?,
+                    Protocol::V4 => None,
+                };
 
                 let will_topic = read_mqtt_string(&mut bytes)?;
                 let will_message = read_mqtt_bytes(&mut bytes)?;
@@ -237,7 +249,7 @@ impl LastWill {
         Ok(last_will)
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
+    fn write(&self, protocol: Protocol, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
 
         connect_flags |= 0x04 | (self.qos as u8) << 3;
@@ -246,6 +258,7 @@ impl LastWill {
         }
 
         match &self.properties {
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
-- 
2.43.0


From b68b8e6f7755b53cb5c421cbc10b45e819ffd559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 09/11] fix: a filter in which '+' shares its level with other
 text is invalid

---
 src/topic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/topic.rs b/src/topic.rs
index e740f7f..bdcd228 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -42,6 +42,14 @@ pub fn valid_filter(filter: &str) -> bool {
         if last.len() != 1 && last.contains('#') {
             return false;
         }
+
+        // + has to occupy its entire level
+        // invalid: sport+
+        for entry in hirerarchy.iter() {
+            if entry.len() != 1 && entry.contains('+') {
+                return false;
+            }
+        }
     }
 
     true
-- 
2.43.0


From 7a12cecbfb53b9d0eb0506b25eb3411244bd9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 10/11] fix: a failed write must leave the output buffer as it
 was

---
 src/lib.rs            | 15 +++++++++++++++
 src/v4/connect.rs     |  4 ++++
 src/v4/publish.rs     |  4 ++++
 src/v4/suback.rs      |  4 ++++
 src/v4/subscribe.rs   |  4 ++++
 src/v4/unsubscribe.rs |  4 ++++
 src/v5/connack.rs     |  4 ++++
 src/v5/connect.rs     |  4 ++++
 src/v5/disconnect.rs  |  4 ++++
 src/v5/puback.rs      |  4 ++++
 src/v5/pubcomp.rs     |  4 ++++
 src/v5/publish.rs     |  4 ++++
 src/v5/pubrec.rs      |  4 ++++
 src/v5/pubrel.rs      |  4 ++++
 src/v5/suback.rs      |  4 ++++
 src/v5/subscribe.rs   |  4 ++++
 src/v5/unsuback.rs    |  4 ++++
 src/v5/unsubscribe.rs |  4 ++++
 18 files changed, 83 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2c046a3..8be09c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -248,6 +248,21 @@ fn read_mqtt_string(stream: &mut Bytes) -> Result<String, Error> {
     }
 }
 
+/// Runs a packet's encoder and removes everything it wrote if it fails, so that a
+/// refused packet doesn't corrupt the stream of packets around it
+fn write_or_undo<F>(buffer: &mut BytesMut, encode: F) -> Result<usize, Error>
+where
+    F: FnOnce(&mut BytesMut) -> Result<usize, Error>,
+{
+    let start = buffer.len();
+    let result = encode(buffer);
+    if result.is_err() {
+        buffer.truncate(start);
+    }
+
+    result
+}
+
 /// Serializes bytes to stream (including length)
 fn write_mqtt_bytes(stream: &mut BytesMut, bytes: &[u8]) {
     stream.put_u16(bytes.len() as u16);
diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index a82d6bf..a7f2279 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -101,6 +101,10 @@ impl Connect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 0f49531..5c8ea5d 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -80,6 +80,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
 
         let dup = self.dup as u8;
diff --git a/src/v4/suback.rs b/src/v4/suback.rs
index 198d6a9..336b146 100644
--- a/src/v4/suback.rs
+++ b/src/v4/suback.rs
@@ -40,6 +40,10 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0x90);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v4/subscribe.rs b/src/v4/subscribe.rs
index 3bb386d..08f6c2a 100644
--- a/src/v4/subscribe.rs
+++ b/src/v4/subscribe.rs
@@ -75,6 +75,10 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         // write packet type
         buffer.put_u8(0x82);
 
diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 9c32cc5..937336a 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -37,6 +37,10 @@ impl Unsubscribe {
     }
 
     pub fn write(&self, payload: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(payload, |payload| self.encode(payload))
+    }
+
+    fn encode(&self, payload: &mut BytesMut) -> Result<usize, Error> {
         let remaining_len = 2 + self
             .topics
             .iter()
diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index d01a96f..366e826 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -83,6 +83,10 @@ impl ConnAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x20);
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index bc8447f..49979e7 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -125,6 +125,10 @@ impl Connect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index c87f8c6..db74115 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -321,6 +321,10 @@ impl Disconnect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xE0);
 
         let length = self.len();
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 54cb584..3f5ce08 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -87,6 +87,10 @@ impl PubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x40);
 
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index bc90056..675dc94 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -75,6 +75,10 @@ impl PubComp {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x70);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 857c81b..a0abdea 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -96,6 +96,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
 
         let dup = self.dup as u8;
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index b55751b..8892e30 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -83,6 +83,10 @@ impl PubRec {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x50);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index 8dafec1..40df9f2 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -74,6 +74,10 @@ impl PubRel {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x62);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 2ff5f76..9d1dfdd 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -65,6 +65,10 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0x90);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 51b1bb0..a938e2b 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -124,6 +124,10 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         // write packet type
         buffer.put_u8(0x82);
 
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 4d54cdc..01cb832 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -76,6 +76,10 @@ impl UnsubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xB0);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index c2321ed..392312e 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -59,6 +59,10 @@ impl Unsubscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_undo(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xA2);
 
         // write remaining length
-- 
2.43.0


From 0504c3729ded73fd44bab88809eba68b3ad64918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 11/11] fix: refuse strings and binary fields over 65535 bytes
 instead of truncating their length

---
 src/lib.rs            | 11 ++++++++---
 src/v4/connect.rs     | 18 +++++++++---------
 src/v4/publish.rs     |  2 +-
 src/v4/subscribe.rs   |  7 ++++---
 src/v4/unsubscribe.rs |  2 +-
 src/v5/connack.rs     | 16 ++++++++--------
 src/v5/connect.rs     | 36 ++++++++++++++++++------------------
 src/v5/disconnect.rs  |  8 ++++----
 src/v5/puback.rs      |  6 +++---
 src/v5/pubcomp.rs     |  6 +++---
 src/v5/publish.rs     | 12 ++++++------
 src/v5/pubrec.rs      |  6 +++---
 src/v5/pubrel.rs      |  6 +++---
 src/v5/suback.rs      |  6 +++---
 src/v5/subscribe.rs   | 11 ++++++-----
 src/v5/unsuback.rs    |  6 +++---
 src/v5/unsubscribe.rs |  6 +++---
 17 files changed, 86 insertions(+), 79 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8be09c7..3ea5b47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -264,14 +264,19 @@ where
 }
 
 /// Serializes bytes to stream (including length)
-fn write_mqtt_bytes(stream: &mut BytesMut, bytes: &[u8]) {
+fn write_mqtt_bytes(stream: &mut BytesMut, bytes: &[u8]) -> Result<(), Error> {
+    if bytes.len() > u16::MAX as usize {
+        return Err(Error::PayloadTooLong);
+    }
+
     stream.put_u16(bytes.len() as u16);
     stream.extend_from_slice(bytes);
+    Ok(())
 }
 
 /// Serializes a string to stream
-fn write_mqtt_string(stream: &mut BytesMut, string: &str) {
-    write_mqtt_bytes(stream, string.as_bytes());
+fn write_mqtt_string(stream: &mut BytesMut, string: &str) -> Result<(), Error> {
+    write_mqtt_bytes(stream, string.as_bytes())
 }
 
 /// Writes remaining length to stream and returns number of bytes for remaining length
diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index a7f2279..1b363f1 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -108,7 +108,7 @@ impl Connect {
         let len = self.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, "MQTT");
+        write_mqtt_string(buffer, "MQTT")?;
 
         match self.protocol {
             Protocol::V4 => buffer.put_u8(0x04),
@@ -124,14 +124,14 @@ impl Connect {
 
         buffer.put_u8(connect_flags);
         buffer.put_u16(self.keep_alive);
-        write_mqtt_string(buffer, &self.client_id);
+        write_mqtt_string(buffer, &self.client_id)?;
 
         if let Some(last_will) = &self.last_will {
             connect_flags |= last_will.write(buffer)?;
         }
 
         if let Some(login) = &self.login {
-            connect_flags |= login.write(buffer);
+            connect_flags |= login.write(buffer)?;
         }
 
         // update connect flags
@@ -200,8 +200,8 @@ impl LastWill {
             connect_flags |= 0x20;
         }
 
-        write_mqtt_string(buffer, &self.topic);
-        write_mqtt_bytes(buffer, &self.message);
+        write_mqtt_string(buffer, &self.topic)?;
+        write_mqtt_bytes(buffer, &self.message)?;
         Ok(connect_flags)
     }
 }
@@ -252,19 +252,19 @@ impl Login {
         len
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> u8 {
+    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
         if !self.username.is_empty() {
             connect_flags |= 0x80;
-            write_mqtt_string(buffer, &self.username);
+            write_mqtt_string(buffer, &self.username)?;
         }
 
         if !self.password.is_empty() {
             connect_flags |= 0x40;
-            write_mqtt_string(buffer, &self.password);
+            write_mqtt_string(buffer, &self.password)?;
         }
 
-        connect_flags
+        Ok(connect_flags)
     }
 
     pub fn validate(&self, username: &String, password: &String ) -> bool {
diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 5c8ea5d..6c6c36a 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -92,7 +92,7 @@ impl Publish {
         buffer.put_u8(0b0011_0000 | retain | qos << 1 | dup << 3);
 
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, self.topic.as_str());
+        write_mqtt_string(buffer, self.topic.as_str())?;
 
         if self.qos != QoS::AtMostOnce {
             let pkid = self.pkid;
diff --git a/src/v4/subscribe.rs b/src/v4/subscribe.rs
index 08f6c2a..eb56429 100644
--- a/src/v4/subscribe.rs
+++ b/src/v4/subscribe.rs
@@ -91,7 +91,7 @@ impl Subscribe {
 
         // write filters
         for filter in self.filters.iter() {
-            filter.write(buffer);
+            filter.write(buffer)?;
         }
 
         Ok(1 + remaining_len_bytes + remaining_len)
@@ -115,12 +115,13 @@ impl SubscribeFilter {
         2 + self.path.len() + 1
     }
 
-    fn write(&self, buffer: &mut BytesMut) {
+    fn write(&self, buffer: &mut BytesMut) -> Result<(), Error> {
         let mut options = 0;
         options |= self.qos as u8;
 
-        write_mqtt_string(buffer, self.path.as_str());
+        write_mqtt_string(buffer, self.path.as_str())?;
         buffer.put_u8(options);
+        Ok(())
     }
 }
 
diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 937336a..7e6e0d4 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -51,7 +51,7 @@ impl Unsubscribe {
         payload.put_u16(self.pkid);
 
         for topic in self.topics.iter() {
-            write_mqtt_string(payload, topic.as_str());
+            write_mqtt_string(payload, topic.as_str())?;
         }
         Ok(1 + remaining_len_bytes + remaining_len)
     }
diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 366e826..e46d0f8 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -387,7 +387,7 @@ impl ConnAckProperties {
 
         if let Some(id) = &self.assigned_client_identifier {
             buffer.put_u8(PropertyType::AssignedClientIdentifier as u8);
-            write_mqtt_string(buffer, id);
+            write_mqtt_string(buffer, id)?;
         }
 
         if let Some(topic_alias_max) = self.topic_alias_max {
@@ -397,13 +397,13 @@ impl ConnAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         if let Some(w) = self.wildcard_subscription_available {
@@ -428,22 +428,22 @@ impl ConnAckProperties {
 
         if let Some(info) = &self.response_information {
             buffer.put_u8(PropertyType::ResponseInformation as u8);
-            write_mqtt_string(buffer, info);
+            write_mqtt_string(buffer, info)?;
         }
 
         if let Some(reference) = &self.server_reference {
             buffer.put_u8(PropertyType::ServerReference as u8);
-            write_mqtt_string(buffer, reference);
+            write_mqtt_string(buffer, reference)?;
         }
 
         if let Some(authentication_method) = &self.authentication_method {
             buffer.put_u8(PropertyType::AuthenticationMethod as u8);
-            write_mqtt_string(buffer, authentication_method);
+            write_mqtt_string(buffer, authentication_method)?;
         }
 
         if let Some(authentication_data) = &self.authentication_data {
             buffer.put_u8(PropertyType::AuthenticationData as u8);
-            write_mqtt_bytes(buffer, authentication_data);
+            write_mqtt_bytes(buffer, authentication_data)?;
         }
 
         Ok(())
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 49979e7..699dedd 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -132,7 +132,7 @@ impl Connect {
         let len = self.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, "MQTT");
+        write_mqtt_string(buffer, "MQTT")?;
 
         match self.protocol {
             Protocol::V4 => buffer.put_u8(0x04),
@@ -157,14 +157,14 @@ impl Connect {
             }
         };
 
-        write_mqtt_string(buffer, &self.client_id);
+        write_mqtt_string(buffer, &self.client_id)?;
 
         if let Some(last_will) = &self.last_will {
             connect_flags |= last_will.write(self.protocol, buffer)?;
         }
 
         if let Some(login) = &self.login {
-            connect_flags |= login.write(buffer);
+            connect_flags |= login.write(buffer)?;
         }
 
         // update connect flags
@@ -269,8 +269,8 @@ impl LastWill {
             }
         };
 
-        write_mqtt_string(buffer, &self.topic);
-        write_mqtt_bytes(buffer, &self.message);
+        write_mqtt_string(buffer, &self.topic)?;
+        write_mqtt_bytes(buffer, &self.message)?;
         Ok(connect_flags)
     }
 }
@@ -412,23 +412,23 @@ impl WillProperties {
 
         if let Some(typ) = &self.content_type {
             buffer.put_u8(PropertyType::ContentType as u8);
-            write_mqtt_string(buffer, typ);
+            write_mqtt_string(buffer, typ)?;
         }
 
         if let Some(topic) = &self.response_topic {
             buffer.put_u8(PropertyType::ResponseTopic as u8);
-            write_mqtt_string(buffer, topic);
+            write_mqtt_string(buffer, topic)?;
         }
 
         if let Some(data) = &self.correlation_data {
             buffer.put_u8(PropertyType::CorrelationData as u8);
-            write_mqtt_bytes(buffer, data);
+            write_mqtt_bytes(buffer, data)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
@@ -481,19 +481,19 @@ impl Login {
         len
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> u8 {
+    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
         if !self.username.is_empty() {
             connect_flags |= 0x80;
-            write_mqtt_string(buffer, &self.username);
+            write_mqtt_string(buffer, &self.username)?;
         }
 
         if !self.password.is_empty() {
             connect_flags |= 0x40;
-            write_mqtt_string(buffer, &self.password);
+            write_mqtt_string(buffer, &self.password)?;
         }
 
-        connect_flags
+        Ok(connect_flags)
     }
 }
 
@@ -690,18 +690,18 @@ impl ConnectProperties {
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         if let Some(authentication_method) = &self.authentication_method {
             buffer.put_u8(PropertyType::AuthenticationMethod as u8);
-            write_mqtt_string(buffer, authentication_method);
+            write_mqtt_string(buffer, authentication_method)?;
         }
 
         if let Some(authentication_data) = &self.authentication_data {
             buffer.put_u8(PropertyType::AuthenticationData as u8);
-            write_mqtt_bytes(buffer, authentication_data);
+            write_mqtt_bytes(buffer, authentication_data)?;
         }
 
         Ok(())
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index db74115..644bc23 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -232,18 +232,18 @@ impl DisconnectProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         if let Some(reference) = &self.server_reference {
             buffer.put_u8(PropertyType::ServerReference as u8);
-            write_mqtt_string(buffer, reference);
+            write_mqtt_string(buffer, reference)?;
         }
 
         Ok(())
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 3f5ce08..7977b7a 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -176,13 +176,13 @@ impl PubAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 675dc94..d2938fb 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -164,13 +164,13 @@ impl PubCompProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index a0abdea..761f6d5 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -108,7 +108,7 @@ impl Publish {
         buffer.put_u8(0b0011_0000 | retain | qos << 1 | dup << 3);
 
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, self.topic.as_str());
+        write_mqtt_string(buffer, self.topic.as_str())?;
 
         if self.qos != QoS::AtMostOnce {
             let pkid = self.pkid;
@@ -283,18 +283,18 @@ impl PublishProperties {
 
         if let Some(topic) = &self.response_topic {
             buffer.put_u8(PropertyType::ResponseTopic as u8);
-            write_mqtt_string(buffer, topic);
+            write_mqtt_string(buffer, topic)?;
         }
 
         if let Some(data) = &self.correlation_data {
             buffer.put_u8(PropertyType::CorrelationData as u8);
-            write_mqtt_bytes(buffer, data);
+            write_mqtt_bytes(buffer, data)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         for id in self.subscription_identifiers.iter() {
@@ -304,7 +304,7 @@ impl PublishProperties {
 
         if let Some(typ) = &self.content_type {
             buffer.put_u8(PropertyType::ContentType as u8);
-            write_mqtt_string(buffer, typ);
+            write_mqtt_string(buffer, typ)?;
         }
 
         Ok(())
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index 8892e30..5fca224 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -172,13 +172,13 @@ impl PubRecProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index 40df9f2..5b7f5b7 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -163,13 +163,13 @@ impl PubRelProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 9d1dfdd..1f29cfa 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -153,13 +153,13 @@ impl SubAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index a938e2b..f32af2d 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -147,7 +147,7 @@ impl Subscribe {
 
         // write filters
         for filter in self.filters.iter() {
-            filter.write(buffer);
+            filter.write(buffer)?;
         }
 
         Ok(1 + remaining_len_bytes + remaining_len)
@@ -226,8 +226,8 @@ impl SubscribeProperties {
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
@@ -275,7 +275,7 @@ impl SubscribeFilter {
         2 + self.path.len() + 1
     }
 
-    fn write(&self, buffer: &mut BytesMut) {
+    fn write(&self, buffer: &mut BytesMut) -> Result<(), Error> {
         let mut options = 0;
         options |= self.qos as u8;
 
@@ -293,8 +293,9 @@ impl SubscribeFilter {
             RetainForwardRule::Never => options |= 2 << 4,
         }
 
-        write_mqtt_string(buffer, self.path.as_str());
+        write_mqtt_string(buffer, self.path.as_str())?;
         buffer.put_u8(options);
+        Ok(())
     }
 }
 
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 01cb832..156c26e 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -164,13 +164,13 @@ impl UnsubAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 392312e..3e5072f 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -81,7 +81,7 @@ impl Unsubscribe {
 
         // write filters
         for filter in self.filters.iter() {
-            write_mqtt_string(buffer, filter);
+            write_mqtt_string(buffer, filter)?;
         }
 
         Ok(1 + remaining_len_bytes + remaining_len)
@@ -140,8 +140,8 @@ impl UnsubscribeProperties {
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
-- 
2.43.0

