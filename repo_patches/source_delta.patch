From 8f1e30d3e3220cda7ab732377ccc4d8296415849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 01/43] fix: v5 PUBLISH decoder stays inside its own frame

Topic, packet id and properties were read from everything buffered, so a
property length reaching past the frame made packet_size - offset
underflow (panic in debug builds) and read the next packet's bytes.
---
 src/mqtt_serde/mqttv5/publish.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 467be22..ab1b149 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -166,6 +166,9 @@ impl MqttControlPacket for MqttPublish {
             return Ok(ParseOk::Continue(packet_size - buffer.len(), 0));
         }
 
+        // Nothing after this frame belongs to this packet
+        let buffer = &buffer[..packet_size];
+
         // MQTT 5.0: 3.3.2 PUBLISH VARIABLE HEADER
         // MQTT 5.0: 3.3.2.1 Topic Name
         let (topic_name, consumed) =
-- 
2.43.0


From 503aaf52ab54cf054440570aad6132cebb346484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 02/43] fix: version detection survives an empty buffer and
 protocol level 0

An empty buffer was indexed, and a CONNECT announcing protocol level 0
was stored as the 'undefined' version, so the next next_packet() call
hit its assertion.
---
 src/mqtt_serde/parser/stream.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 05a863e..9a3cba3 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -73,7 +73,11 @@ impl MqttParser {
         }
 
         // precheck if it's a CONNECT packet
-        if self.buffer[offset] != 0x10 {
+        let first_byte = *self.buffer.get(offset).ok_or(ParseError::More(
+            1,
+            "CONNECT packet to determine MQTT version".to_string(),
+        ))?;
+        if first_byte != 0x10 {
             return Err(ParseError::ParseError(
                 "Expected CONNECT packet to determine MQTT version".to_string(),
             ));
@@ -93,8 +97,14 @@ impl MqttParser {
             ));
         }
 
-        self.mqtt_version = self.buffer[vsn_offset];
-        Ok(self.mqtt_version)
+        match self.buffer[vsn_offset] {
+            // 0 means undefined and must not be taken from the wire
+            0 => Err(ParseError::UnSuppProtoVsn),
+            version => {
+                self.mqtt_version = version;
+                Ok(version)
+            }
+        }
     }
 
     /// Appends new data from the stream to the internal buffer.
-- 
2.43.0


From 7b2e0b024b927a01256682a7830d84f2b45ceba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 03/43] fix: a packet split inside its remaining-length field
 is not an error

next_packet()/next_parsed() reported a malformed packet when the read
boundary fell inside the fixed header instead of asking for more data.
---
 src/mqtt_serde/parser/stream.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 9a3cba3..6739d0b 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -139,6 +139,12 @@ impl MqttParser {
                 // Not enough data in the buffer for a full packet
                 Ok(None)
             }
+            // The remaining length field itself has not fully arrived yet
+            Err(ParseError::More(_, _) | ParseError::BufferTooShort)
+                if matches!(packet_frame_len(&self.buffer), Ok(None)) =>
+            {
+                Ok(None)
+            }
             Err(e) => {
                 // An unrecoverable parsing error occurred
                 Err(e)
@@ -171,6 +177,12 @@ impl MqttParser {
                         Ok(Some(ParsedPacket::Full(packet)))
                     }
                     Ok(ParseOk::Continue(_, _)) => Ok(None),
+                    // The remaining length field itself has not fully arrived yet
+                    Err(ParseError::More(_, _) | ParseError::BufferTooShort)
+                        if matches!(packet_frame_len(&self.buffer), Ok(None)) =>
+                    {
+                        Ok(None)
+                    }
                     Err(e) => Err(e),
                     Ok(ParseOk::TopicName(_, _)) => Err(ParseError::ParseError(
                         "Unexpected ParseOk variant".to_string(),
-- 
2.43.0


From fe8aff46350edca14ea2268588d705a7818197a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 04/43] fix: MqttStream reads in a loop instead of recursing
 once per read

A packet arriving in many small reads overflowed the stack.
---
 src/mqtt_serde/parser/stream.rs | 49 +++++++++++++++++----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 6739d0b..00cc857 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -268,33 +268,34 @@ where
     type Item = Result<MqttPacket, ParseError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.parser.next_packet() {
-            Ok(Some(packet)) => Some(Ok(packet)),
-            Ok(None) => {
-                // Reserve space in the parser's buffer for reading
-                let buffer = self.parser.buffer_mut();
-                let initial_len = buffer.len();
-                buffer.resize(initial_len + 1024, 0);
-
-                match self.stream.read(&mut buffer[initial_len..]) {
-                    Ok(0) => {
-                        // End of stream - remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        None
-                    }
-                    Ok(n) => {
-                        // Adjust buffer to actual bytes read
-                        buffer.truncate(initial_len + n);
-                        self.next() // Try to parse again
-                    }
-                    Err(e) => {
-                        // Remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        Some(Err(ParseError::IoError(e)))
+        loop {
+            match self.parser.next_packet() {
+                Ok(Some(packet)) => return Some(Ok(packet)),
+                Ok(None) => {
+                    // Reserve space in the parser's buffer for reading
+                    let buffer = self.parser.buffer_mut();
+                    let initial_len = buffer.len();
+                    buffer.resize(initial_len + 1024, 0);
+
+                    match self.stream.read(&mut buffer[initial_len..]) {
+                        Ok(0) => {
+                            // End of stream - remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return None;
+                        }
+                        Ok(n) => {
+                            // Adjust buffer to actual bytes read, then try to parse again
+                            buffer.truncate(initial_len + n);
+                        }
+                        Err(e) => {
+                            // Remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return Some(Err(ParseError::IoError(e)));
+                        }
                     }
                 }
+                Err(e) => return Some(Err(e)),
             }
-            Err(e) => Some(Err(e)),
         }
     }
 }
-- 
2.43.0


From 54b0983d01f77a7f0f5330e3eab648f9c58d8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:54 +0000
Subject: [PATCH 05/43] fix: a re-delivered QoS 2 message reaches the
 application only once

A PUBLISH repeated with DUP before its PUBREL is acknowledged again but no
longer handed to the application a second time.
---
 src/mqtt_client/engine.rs | 68 +++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ba2b7d6..105d21f 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -16,7 +16,7 @@ use rustls::{
 };
 #[cfg(feature = "quic-proto")]
 use std::collections::HashMap;
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::time::{Duration, Instant};
 #[cfg(feature = "quic-proto")]
 use std::{
@@ -212,6 +212,9 @@ pub struct MqttEngine {
     // Pending operations tracking (state only)
     inflight_queue: InflightQueue,
 
+    // Identifiers of received QoS 2 messages that the server has not released yet
+    incoming_qos2: HashSet<u16>,
+
     events: Vec<MqttEvent>,
 
     // Reconnection state
@@ -247,6 +250,7 @@ impl MqttEngine {
                 retransmission_timeout,
             ),
             session: None,
+            incoming_qos2: HashSet::new(),
             priority_queue: PriorityQueue::new(1000),
             is_connected: false,
             last_packet_sent: Instant::now(),
@@ -925,6 +929,9 @@ impl MqttEngine {
                 self.is_connected = ack.reason_code == 0;
                 if self.is_connected {
                     self.reset_reconnect_state();
+                    if !ack.session_present {
+                        self.incoming_qos2.clear();
+                    }
                 }
                 events.push(MqttEvent::Connected(ConnectionResult {
                     reason_code: ack.reason_code,
@@ -958,6 +965,9 @@ impl MqttEngine {
                 self.is_connected = ack.return_code == 0;
                 if self.is_connected {
                     self.reset_reconnect_state();
+                    if !ack.session_present {
+                        self.incoming_qos2.clear();
+                    }
                 }
                 events.push(MqttEvent::Connected(ConnectionResult {
                     reason_code: ack.return_code,
@@ -1000,11 +1010,13 @@ impl MqttEngine {
             MqttPacket::Publish5(p) => {
                 let qos = p.qos;
                 let pid = p.packet_id;
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p));
+                if !self.is_qos2_duplicate(qos, p.dup, pid) {
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -1019,21 +1031,23 @@ impl MqttEngine {
             MqttPacket::Publish3(p) => {
                 let qos = p.qos;
                 let pid = p.message_id;
-                // Convert v3 publish to v5 for internal consumption
-                let p5 = MqttPublish::new_with_prop(
-                    qos,
-                    p.topic_name.clone(),
-                    pid,
-                    p.payload.clone(),
-                    p.retain,
-                    p.dup,
-                    Vec::new(),
-                );
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p5));
+                if !self.is_qos2_duplicate(qos, p.dup, pid) {
+                    // Convert v3 publish to v5 for internal consumption
+                    let p5 = MqttPublish::new_with_prop(
+                        qos,
+                        p.topic_name.clone(),
+                        pid,
+                        p.payload.clone(),
+                        p.retain,
+                        p.dup,
+                        Vec::new(),
+                    );
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p5));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -1116,6 +1130,7 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubRel5(rel) => {
+                self.incoming_qos2.remove(&rel.packet_id);
                 events.push(MqttEvent::PubRelReceived {
                     packet_id: rel.packet_id,
                     stream,
@@ -1129,6 +1144,7 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubRel3(rel) => {
+                self.incoming_qos2.remove(&rel.message_id);
                 events.push(MqttEvent::PubRelReceived {
                     packet_id: rel.message_id,
                     stream,
@@ -1168,6 +1184,16 @@ impl MqttEngine {
         (events, responses)
     }
 
+    /// Records a received QoS 2 message and tells whether it is a re-delivery of
+    /// one that the server has not released yet. Such a message is acknowledged
+    /// again but must not reach the application a second time.
+    fn is_qos2_duplicate(&mut self, qos: u8, dup: bool, packet_id: Option<u16>) -> bool {
+        match packet_id {
+            Some(pid) if qos == 2 => !self.incoming_qos2.insert(pid) && dup,
+            _ => false,
+        }
+    }
+
     fn pingreq_packet(&self) -> MqttPacket {
         if self.options.mqtt_version == 5 {
             MqttPacket::PingReq5(pingreqv5::MqttPingReq::new())
-- 
2.43.0


From 691703d9e76023abdb6a1c8da1eb2113646de64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:54 +0000
Subject: [PATCH 06/43] fix: a refused connection does not trigger session
 resumption

---
 src/mqtt_client/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 105d21f..2896233 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -951,7 +951,7 @@ impl MqttEngine {
 
                 // Handle session resumption: resend pending messages
                 // Only when server confirms session resumption (session_present=true)
-                if ack.session_present {
+                if self.is_connected && ack.session_present {
                     let pending = self.inflight_queue.get_all_for_reconnect();
                     for mut packet in pending {
                         packet.set_dup(true);
@@ -977,7 +977,7 @@ impl MqttEngine {
 
                 // Handle session resumption: resend pending messages
                 // Only when server confirms session resumption (session_present=true)
-                if ack.session_present {
+                if self.is_connected && ack.session_present {
                     let pending = self.inflight_queue.get_all_for_reconnect();
                     for mut packet in pending {
                         packet.set_dup(true);
-- 
2.43.0


From 90e913c70c9577cd1ff03b931096ca1a692466d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 07/43] fix: a PUBREC that refuses the message completes the
 publish

---
 src/mqtt_client/engine.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 2896233..f41ba28 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1101,6 +1101,17 @@ impl MqttEngine {
             }
             MqttPacket::PubRec5(rec) => {
                 if let Some(mut entry) = self.inflight_queue.acknowledge(rec.packet_id) {
+                    if rec.reason_code >= 0x80 {
+                        // The server refused the message: the exchange ends here and
+                        // the packet identifier is free again.
+                        events.push(MqttEvent::Published(PublishResult {
+                            packet_id: Some(rec.packet_id),
+                            reason_code: Some(rec.reason_code),
+                            properties: Some(rec.properties),
+                            qos: entry.qos,
+                        }));
+                        return (events, responses);
+                    }
                     let rel = MqttPacket::PubRel5(MqttPubRel::new(rec.packet_id, 0, Vec::new()));
                     // Update entry to store PUBREL for retransmission
                     entry.packet = rel.clone();
-- 
2.43.0


From 55a0ce7ac4563801cb89f0406bb37aba8f182e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 08/43] fix: a QoS 2 message keeps its receive-maximum slot
 until PUBCOMP

The slot was given back on PUBREC, so more messages than the receive maximum
could be unacknowledged at once; reusing an identifier leaked a slot.
---
 src/mqtt_client/inflight.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index c708c45..bb3a6eb 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -44,7 +44,7 @@ pub struct InflightQueue {
     mqtt_version: u8,
     /// Default retransmission timeout
     retransmission_timeout: Duration,
-    /// Current number of PUBLISH packets in the queue (for flow control)
+    /// Current number of PUBLISH and PUBREL packets in the queue (for flow control)
     publish_count: usize,
 }
 
@@ -64,6 +64,18 @@ impl InflightQueue {
         }
     }
 
+    /// Does the entry use up one of the `receive_maximum` slots? A QoS 2 message
+    /// keeps its slot until PUBCOMP, so its PUBREL counts like the PUBLISH did.
+    fn uses_quota(packet: &MqttPacket) -> bool {
+        matches!(
+            packet,
+            MqttPacket::Publish5(_)
+                | MqttPacket::Publish3(_)
+                | MqttPacket::PubRel5(_)
+                | MqttPacket::PubRel3(_)
+        )
+    }
+
     /// Check if another PUBLISH message can be sent
     pub fn can_push_publish(&self) -> bool {
         self.publish_count < self.receive_maximum as usize
@@ -108,7 +120,7 @@ impl InflightQueue {
         }
 
         let now = Instant::now();
-        if matches!(packet, MqttPacket::Publish5(_) | MqttPacket::Publish3(_)) {
+        if Self::uses_quota(&packet) {
             self.publish_count += 1;
         }
 
@@ -121,7 +133,11 @@ impl InflightQueue {
             stream,
         };
 
-        self.entries.insert(packet_id, entry);
+        if let Some(replaced) = self.entries.insert(packet_id, entry) {
+            if Self::uses_quota(&replaced.packet) {
+                self.publish_count -= 1;
+            }
+        }
         // Only track deadlines for MQTT v3 which needs timeout-based retransmission
         // MQTT v5 forbids retransmission, so deadline_queue is not needed
         if self.mqtt_version != 5 {
@@ -133,10 +149,7 @@ impl InflightQueue {
     /// Acknowledge a message (PUBACK, PUBREL, etc.)
     pub fn acknowledge(&mut self, packet_id: u16) -> Option<InflightEntry> {
         if let Some(entry) = self.entries.remove(&packet_id) {
-            if matches!(
-                entry.packet,
-                MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
-            ) {
+            if Self::uses_quota(&entry.packet) {
                 self.publish_count -= 1;
             }
             Some(entry)
-- 
2.43.0


From b794fbceca842acfdde02813b5b90aec9b9b4097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 09/43] fix: send the configured will, and MQTT 3.1.1
 credentials, when the engine connects

---
 src/mqtt_client/engine.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index f41ba28..43b62c8 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -566,18 +566,26 @@ impl MqttEngine {
                 self.options.client_id.clone(),
                 self.options.username.clone(),
                 self.options.password.clone(),
-                None, // Will
+                self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
                 Vec::new(), // Properties
             );
             MqttPacket::Connect5(connect)
         } else {
-            let connect = connectv3::MqttConnect::new(
+            let mut connect = connectv3::MqttConnect::new(
                 self.options.client_id.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
             );
+            connect.username = self.options.username.clone();
+            connect.password = self.options.password.clone();
+            connect.will = self.options.will.as_ref().map(|will| connectv3::Will {
+                retain: will.will_retain,
+                qos: will.will_qos,
+                topic: will.will_topic.clone(),
+                message: will.will_message.clone(),
+            });
             MqttPacket::Connect3(connect)
         };
 
-- 
2.43.0


From 5e8eedfc6d59e86728fab69837e02b3d19d7dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:38 +0000
Subject: [PATCH 10/43] fix: send the configured MQTT 5 session options in
 CONNECT

---
 src/mqtt_client/client.rs |  4 ++--
 src/mqtt_client/engine.rs |  2 +-
 src/mqtt_client/opts.rs   | 19 +++++++++++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 79e99d4..03bbad7 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -406,7 +406,7 @@ impl MqttClient {
                     self.options.will.clone(),
                     self.options.keep_alive,
                     self.options.clean_start,
-                    vec![], // Add properties as needed
+                    self.options.connect_properties(),
                 );
 
                 // stream used, now save it
@@ -818,7 +818,7 @@ impl MqttClient {
                 self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                vec![], // Add properties as needed
+                self.options.connect_properties(),
             );
 
             // Stream used, now save it
diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 43b62c8..a8c899d 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -569,7 +569,7 @@ impl MqttEngine {
                 self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                Vec::new(), // Properties
+                self.options.connect_properties(),
             );
             MqttPacket::Connect5(connect)
         } else {
diff --git a/src/mqtt_client/opts.rs b/src/mqtt_client/opts.rs
index d7ef621..ece66e2 100644
--- a/src/mqtt_client/opts.rs
+++ b/src/mqtt_client/opts.rs
@@ -1,5 +1,6 @@
 // SPDX-License-Identifier: MPL-2.0
 
+use crate::mqtt_serde::mqttv5::common::properties::Property;
 use crate::mqtt_serde::mqttv5::subscribev5;
 use crate::mqtt_serde::mqttv5::willv5::Will;
 
@@ -188,6 +189,24 @@ impl MqttClientOptions {
         self
     }
 
+    /// MQTT v5 CONNECT properties for the configured session options
+    pub(crate) fn connect_properties(&self) -> Vec<Property> {
+        let mut properties = Vec::new();
+        if let Some(interval) = self.session_expiry_interval {
+            properties.push(Property::SessionExpiryInterval(interval));
+        }
+        if let Some(size) = self.maximum_packet_size {
+            properties.push(Property::MaximumPacketSize(size));
+        }
+        if let Some(request) = self.request_response_information {
+            properties.push(Property::RequestResponseInformation(request as u8));
+        }
+        if let Some(request) = self.request_problem_information {
+            properties.push(Property::RequestProblemInformation(request as u8));
+        }
+        properties
+    }
+
     /// Set the broker peer address (host:port)
     pub fn peer(mut self, peer: impl Into<String>) -> Self {
         self.peer = peer.into();
-- 
2.43.0


From f9bcd360347e2b96d6dde031d51632fea484f898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:28 +0000
Subject: [PATCH 11/43] fix: do not track a SUBSCRIBE or UNSUBSCRIBE that could
 not be queued

---
 src/mqtt_client/engine.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index a8c899d..d096d02 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -760,8 +760,10 @@ impl MqttEngine {
             MqttPacket::Subscribe3(subscribev3::MqttSubscribe::new(pid, v3_subs))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        // Track the request only once it has been queued, so that a full outgoing
+        // buffer or an encoding failure leaves no dangling inflight entry.
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
@@ -784,8 +786,10 @@ impl MqttEngine {
             MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(pid, command.topics))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        // Track the request only once it has been queued, so that a full outgoing
+        // buffer or an encoding failure leaves no dangling inflight entry.
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
-- 
2.43.0


From 1f7f67dce7b4e2f96229eaeba443dc90dedc9598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 12/43] fix: do not drop acknowledgements when the outgoing
 buffer is full

---
 src/mqtt_client/engine.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index d096d02..b62c936 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -387,9 +387,17 @@ impl MqttEngine {
                     let (packet_events, responses) = self.handle_packet(packet, None);
                     self.events.extend(packet_events);
                     // Single-stream transports (TCP/TLS, QUIC control stream) send
-                    // responses back over the same shared outgoing buffer.
+                    // responses back over the same shared outgoing buffer. The limit
+                    // on queued requests does not apply: an acknowledgement that
+                    // is dropped here would never be sent again.
                     for response in responses {
-                        let _ = self.enqueue_packet(response);
+                        match response.to_bytes() {
+                            Ok(bytes) => {
+                                self.outgoing_buffer.push_back(bytes);
+                                self.last_packet_sent = Instant::now();
+                            }
+                            Err(e) => self.events.push(MqttEvent::Error(MqttClientError::from(e))),
+                        }
                     }
                 }
                 Ok(None) => break,
-- 
2.43.0


From 0772e47c391bfaf60b41e0bf588b741d207822f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:01 +0000
Subject: [PATCH 13/43] fix: forget the packets of a session the server did not
 keep

After reconnecting to a server without the session, the unacknowledged
packets of the old session kept their receive-maximum slots although they
can never be acknowledged, until no QoS 1/2 PUBLISH could be sent at all.
---
 src/mqtt_client/engine.rs   | 20 ++++++++++++++++++--
 src/mqtt_client/inflight.rs | 14 ++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index b62c936..db157c7 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -215,6 +215,10 @@ pub struct MqttEngine {
     // Identifiers of received QoS 2 messages that the server has not released yet
     incoming_qos2: HashSet<u16>,
 
+    // When the CONNECT of the current transport was queued. If the server did not
+    // keep the session, everything sent before that belongs to a lost session.
+    connect_sent_at: Option<Instant>,
+
     events: Vec<MqttEvent>,
 
     // Reconnection state
@@ -251,6 +255,7 @@ impl MqttEngine {
             ),
             session: None,
             incoming_qos2: HashSet::new(),
+            connect_sent_at: None,
             priority_queue: PriorityQueue::new(1000),
             is_connected: false,
             last_packet_sent: Instant::now(),
@@ -311,6 +316,7 @@ impl MqttEngine {
         self.last_packet_sent = now;
         self.last_packet_received = now;
         self.ping_sent_at = None;
+        self.connect_sent_at = None;
     }
 
     /// Schedule the next reconnection attempt using exponential backoff.
@@ -597,9 +603,19 @@ impl MqttEngine {
             MqttPacket::Connect3(connect)
         };
 
+        self.connect_sent_at = Some(Instant::now());
         let _ = self.enqueue_packet(packet);
     }
 
+    /// The server accepted the connection but has no session for this client:
+    /// what the previous session left behind will never be acknowledged or released.
+    fn discard_lost_session(&mut self) {
+        self.incoming_qos2.clear();
+        if let Some(connect_sent_at) = self.connect_sent_at {
+            self.inflight_queue.discard_sent_before(connect_sent_at);
+        }
+    }
+
     /// Queue a PUBLISH packet.
     ///
     /// - **QoS 0**: ID is usually None (unless needed for tracing).
@@ -950,7 +966,7 @@ impl MqttEngine {
                 if self.is_connected {
                     self.reset_reconnect_state();
                     if !ack.session_present {
-                        self.incoming_qos2.clear();
+                        self.discard_lost_session();
                     }
                 }
                 events.push(MqttEvent::Connected(ConnectionResult {
@@ -986,7 +1002,7 @@ impl MqttEngine {
                 if self.is_connected {
                     self.reset_reconnect_state();
                     if !ack.session_present {
-                        self.incoming_qos2.clear();
+                        self.discard_lost_session();
                     }
                 }
                 events.push(MqttEvent::Connected(ConnectionResult {
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index bb3a6eb..6c8afdb 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -158,6 +158,20 @@ impl InflightQueue {
         }
     }
 
+    /// Forget the messages sent before `time`, e.g. those of a session that the
+    /// server did not keep, and give their `receive_maximum` slots back.
+    pub fn discard_sent_before(&mut self, time: Instant) {
+        let stale: Vec<u16> = self
+            .entries
+            .values()
+            .filter(|entry| entry.sent_at < time)
+            .map(|entry| entry.packet_id)
+            .collect();
+        for packet_id in stale {
+            self.acknowledge(packet_id);
+        }
+    }
+
     /// Get all expired messages that need retransmission (MQTT 3.1.1 only).
     /// This is a BAD design in MQTT 3.1.1
     pub fn get_expired(&mut self, now: Instant) -> Vec<MqttPacket> {
-- 
2.43.0


From 6be31980eebe95787b5242041699005b55803f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:32 +0000
Subject: [PATCH 14/43] fix: do not allocate a packet identifier that is still
 in use

After 65535 allocations the counter came back to identifiers of packets
that are unacknowledged or still queued, and the new packet replaced the
old one in the inflight table.
---
 src/mqtt_client/engine.rs   | 30 +++++++++++++++++++++++-------
 src/mqtt_client/inflight.rs |  5 +++++
 src/priority_queue.rs       |  5 +++++
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index db157c7..26431af 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1333,14 +1333,30 @@ impl MqttEngine {
         }
     }
 
+    /// Allocate a packet identifier that no unacknowledged or waiting packet uses.
     pub fn next_packet_id(&mut self) -> Result<u16, MqttClientError> {
-        let session = self
-            .session
-            .as_mut()
-            .ok_or(MqttClientError::ProtocolViolation {
-                message: "No session available for packet ID allocation".into(),
-            })?;
-        Ok(session.next_packet_id())
+        for _ in 0..u16::MAX {
+            let session = self
+                .session
+                .as_mut()
+                .ok_or(MqttClientError::ProtocolViolation {
+                    message: "No session available for packet ID allocation".into(),
+                })?;
+            let packet_id = session.next_packet_id();
+            if !self.packet_id_in_use(packet_id) {
+                return Ok(packet_id);
+            }
+        }
+        Err(MqttClientError::PacketIdExhausted)
+    }
+
+    fn packet_id_in_use(&self, packet_id: u16) -> bool {
+        self.inflight_queue.contains(packet_id)
+            || self.priority_queue.iter().any(|packet| match packet {
+                MqttPacket::Publish5(p) => p.packet_id == Some(packet_id),
+                MqttPacket::Publish3(p) => p.message_id == Some(packet_id),
+                _ => false,
+            })
     }
 }
 
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 6c8afdb..753f26b 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -242,6 +242,11 @@ impl InflightQueue {
         self.publish_count = 0;
     }
 
+    /// Is a message with this packet identifier unacknowledged?
+    pub fn contains(&self, packet_id: u16) -> bool {
+        self.entries.contains_key(&packet_id)
+    }
+
     pub fn len(&self) -> usize {
         self.entries.len()
     }
diff --git a/src/priority_queue.rs b/src/priority_queue.rs
index 7698d23..3d68d4b 100644
--- a/src/priority_queue.rs
+++ b/src/priority_queue.rs
@@ -80,6 +80,11 @@ where
         Some((prio, item))
     }
 
+    /// The elements in the queue, in no particular order.
+    pub fn iter(&self) -> impl Iterator<Item = &T> {
+        self.map.values().flatten()
+    }
+
     /// Current number of elements in the queue.
     pub fn len(&self) -> usize {
         self.size
-- 
2.43.0


From ee919597e760b920672e9b12c977198bad93deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:18 +0000
Subject: [PATCH 15/43] fix: report a message that the full priority queue
 gives up

publish() had answered Ok with its identifier, but the evicted message
was dropped without any event.
---
 src/mqtt_client/engine.rs | 14 +++++++++++++-
 src/priority_queue.rs     | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 26431af..a0f3155 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -649,7 +649,19 @@ impl MqttEngine {
             // We'll check inflight capacity in process_queue().
         }
 
-        self.priority_queue.enqueue(command.priority, packet);
+        // A full queue gives up its lowest-priority message, which the caller
+        // was told is accepted: that it will not be sent must not go unnoticed.
+        if self
+            .priority_queue
+            .enqueue(command.priority, packet)
+            .is_some()
+        {
+            self.events
+                .push(MqttEvent::Error(MqttClientError::BufferFull {
+                    buffer_type: "priority_queue".to_string(),
+                    capacity: self.priority_queue.len(),
+                }));
+        }
         self.process_queue();
         Ok(pid)
     }
diff --git a/src/priority_queue.rs b/src/priority_queue.rs
index 3d68d4b..acf58f8 100644
--- a/src/priority_queue.rs
+++ b/src/priority_queue.rs
@@ -42,12 +42,15 @@ where
     ///
     /// If the queue is at capacity, the element with the lowest priority is removed.
     /// This could be the element currently being added if it has the lowest priority.
-    pub fn enqueue(&mut self, priority: P, item: T) {
+    /// The removed element is returned.
+    pub fn enqueue(&mut self, priority: P, item: T) -> Option<T> {
         self.map.entry(priority).or_default().push_back(item);
         self.size += 1;
 
         if self.size > self.capacity {
-            self.drop_lowest_priority();
+            self.drop_lowest_priority()
+        } else {
+            None
         }
     }
 
@@ -126,16 +129,16 @@ where
         Ok(queue)
     }
 
-    fn drop_lowest_priority(&mut self) {
+    fn drop_lowest_priority(&mut self) -> Option<T> {
         // Drop from the front (min key).
-        if let Some(mut entry) = self.map.first_entry() {
-            let deque = entry.get_mut();
-            deque.pop_front();
-            if deque.is_empty() {
-                entry.remove();
-            }
-            self.size -= 1;
+        let mut entry = self.map.first_entry()?;
+        let deque = entry.get_mut();
+        let item = deque.pop_front();
+        if deque.is_empty() {
+            entry.remove();
         }
+        self.size -= 1;
+        item
     }
 }
 
-- 
2.43.0


From 4a30ff69a2e4bf4b59a712bf404968face2bf860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:32 +0000
Subject: [PATCH 16/43] fix: a tick with a retransmission timeout of zero did
 not return

Every deadline queued again was already expired, so the loop over the
expired deadlines never ended.
---
 src/mqtt_client/inflight.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 753f26b..7c876ad 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -192,7 +192,12 @@ impl InflightQueue {
             return expired;
         }
 
-        while let Some(&(pid, sent_at)) = self.deadline_queue.front() {
+        // Bounded, so that no message is sent twice in one call: with a timeout of
+        // zero, the deadlines queued below have expired already.
+        for _ in 0..self.deadline_queue.len() {
+            let Some(&(pid, sent_at)) = self.deadline_queue.front() else {
+                break;
+            };
             if now.duration_since(sent_at) < self.retransmission_timeout {
                 break;
             }
-- 
2.43.0


From 992a520c805580f4d1b64100dccb628338b9ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:51 +0000
Subject: [PATCH 17/43] fix: reject packets and values that do not fit a
 variable byte integer instead of encoding a wrong length

---
 src/mqtt_serde/control_packet.rs           | 10 +++++-----
 src/mqtt_serde/mod.rs                      |  8 ++++++--
 src/mqtt_serde/mqttv5/common/properties.rs |  4 ++--
 src/mqtt_serde/mqttv5/publish.rs           |  4 ++--
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/mqtt_serde/control_packet.rs b/src/mqtt_serde/control_packet.rs
index 9102e57..200e5e3 100644
--- a/src/mqtt_serde/control_packet.rs
+++ b/src/mqtt_serde/control_packet.rs
@@ -240,12 +240,12 @@ pub trait MqttControlPacket {
     // Default implementations
     // Constructs the fixed header for the MQTT packet.
     // The fixed header consists of a control packet type, flags, and the remaining length.
-    fn fixed_header(&self, len: usize) -> Vec<u8> {
+    fn fixed_header(&self, len: usize) -> Result<Vec<u8>, ParseError> {
         let byte1: u8 = (self.control_packet_type()) << 4 | self.flags();
-        let variable_length = encode_variable_length(len);
+        let variable_length = encode_variable_length(len)?;
         let mut hdr = vec![byte1];
         hdr.extend(variable_length);
-        hdr
+        Ok(hdr)
     }
 
     // return variable header
@@ -262,7 +262,7 @@ pub trait MqttControlPacket {
         let vhdr = self.variable_header()?;
         let payload = self.payload()?;
         let remaining_length = vhdr.len() + payload.len();
-        bytes.extend(self.fixed_header(remaining_length));
+        bytes.extend(self.fixed_header(remaining_length)?);
         bytes.extend(vhdr);
         bytes.extend(payload);
         Ok(())
@@ -273,7 +273,7 @@ pub trait MqttControlPacket {
         let vhdr = self.variable_header()?;
         let payload = self.payload()?;
         let remaining_length = vhdr.len() + payload.len();
-        let fixed_hdr = self.fixed_header(remaining_length);
+        let fixed_hdr = self.fixed_header(remaining_length)?;
 
         // Pre-allocate the entire packet size to avoid intermediate reallocations
         let mut bytes = Vec::with_capacity(fixed_hdr.len() + remaining_length);
diff --git a/src/mqtt_serde/mod.rs b/src/mqtt_serde/mod.rs
index b4bb023..aa05c68 100644
--- a/src/mqtt_serde/mod.rs
+++ b/src/mqtt_serde/mod.rs
@@ -166,8 +166,12 @@ pub(crate) fn validate_shared_subscription(topic_filter: &str) -> Result<(), Par
 }
 
 // MQTT 5.0 Spec, 1.5.5
-fn encode_variable_length(len: usize) -> Vec<u8> {
-    VariableByteInteger::encode(len as u32)
+fn encode_variable_length(len: usize) -> Result<Vec<u8>, ParseError> {
+    // The maximum value of a Variable Byte Integer
+    if len > 268_435_455 {
+        return Err(ParseError::InvalidLength);
+    }
+    Ok(VariableByteInteger::encode(len as u32))
 }
 
 // for property
diff --git a/src/mqtt_serde/mqttv5/common/properties.rs b/src/mqtt_serde/mqttv5/common/properties.rs
index 61bac52..6979a5e 100644
--- a/src/mqtt_serde/mqttv5/common/properties.rs
+++ b/src/mqtt_serde/mqttv5/common/properties.rs
@@ -95,7 +95,7 @@ impl Property {
             }
             Property::SubscriptionIdentifier(val) => {
                 bytes.push(property_id(PropertyID::SubscriptionIdentifier));
-                bytes.extend(crate::mqtt_serde::encode_variable_length(*val as usize));
+                bytes.extend(crate::mqtt_serde::encode_variable_length(*val as usize)?);
             }
             Property::SessionExpiryInterval(val) => {
                 bytes.push(property_id(PropertyID::SessionExpiryInterval));
@@ -196,7 +196,7 @@ pub fn encode_properities_hdr(properties: &Vec<Property>) -> Result<Vec<u8>, par
     let mut props = Vec::new();
     encode_properities(properties, &mut props)?;
     let mut bytes = Vec::new();
-    bytes.extend(encode_variable_length(props.len()));
+    bytes.extend(encode_variable_length(props.len())?);
     bytes.extend(props);
     Ok(bytes)
 }
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index ab1b149..29211de 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -116,7 +116,7 @@ impl MqttControlPacket for MqttPublish {
         let vhdr = self.variable_header()?;
         let remaining_length = vhdr.len() + self.payload.len();
 
-        bytes.extend(self.fixed_header(remaining_length));
+        bytes.extend(self.fixed_header(remaining_length)?);
         bytes.extend(vhdr);
         bytes.extend_from_slice(&self.payload);
         Ok(())
@@ -231,7 +231,7 @@ impl MqttControlPacket for MqttPublish {
     fn to_bytes(&self) -> Result<Vec<u8>, ParseError> {
         let vhdr = self.variable_header()?;
         let remaining_length = vhdr.len() + self.payload.len();
-        let fixed_hdr = self.fixed_header(remaining_length);
+        let fixed_hdr = self.fixed_header(remaining_length)?;
 
         let mut bytes = Vec::with_capacity(fixed_hdr.len() + remaining_length);
         bytes.extend(fixed_hdr);
-- 
2.43.0


From c94fdce5192a4d162b17c2dbdfe5446f5889b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:26 +0000
Subject: [PATCH 18/43] fix: MQTT 3.1.1 strings and binary data over 65535
 bytes are refused instead of encoded with a truncated length

---
 src/mqtt_serde/mqttv3/connect.rs     | 19 +++++++++----------
 src/mqtt_serde/mqttv3/publish.rs     |  6 +++---
 src/mqtt_serde/mqttv3/subscribe.rs   |  6 +++---
 src/mqtt_serde/mqttv3/unsubscribe.rs |  6 +++---
 src/mqtt_serde/parser/mod.rs         |  3 +++
 5 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index fabbd3a..c114fc9 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -2,10 +2,11 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_binary_data;
 use crate::mqtt_serde::parser::{
-    packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
+    packet_type, parse_remaining_length, parse_utf8_string, write_string, ParseError, ParseOk,
 };
 
 /// Represents the Will message and its properties.
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttConnect {
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
         let mut vh = Vec::new();
         // Protocol Name
-        vh.extend(Utf8String::encode(&self.protocol_name));
+        vh.extend(write_string(&self.protocol_name)?);
         // Protocol Version
         vh.push(self.protocol_version);
 
@@ -86,23 +87,21 @@ impl MqttControlPacket for MqttConnect {
 
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
-        payload.extend(Utf8String::encode(&self.client_id));
+        payload.extend(write_string(&self.client_id)?);
 
         if let Some(will) = &self.will {
-            payload.extend(Utf8String::encode(&will.topic));
+            payload.extend(write_string(&will.topic)?);
             // Will message is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(will.message.len() as u16));
-            payload.extend_from_slice(&will.message);
+            payload.extend(encode_binary_data(&will.message)?);
         }
 
         if let Some(username) = &self.username {
-            payload.extend(Utf8String::encode(username));
+            payload.extend(write_string(username)?);
         }
 
         if let Some(password) = &self.password {
             // Password is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(password.len() as u16));
-            payload.extend_from_slice(password);
+            payload.extend(encode_binary_data(password)?);
         }
 
         Ok(payload)
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index b4a7099..eff41df 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -2,10 +2,10 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
 use crate::mqtt_serde::parser::{
-    packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
+    packet_type, parse_remaining_length, parse_utf8_string, write_string, ParseError, ParseOk,
 };
 
 /// Represents the PUBLISH packet in MQTT v3.1.1.
@@ -55,7 +55,7 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
-        let mut vh = Utf8String::encode(&self.topic_name);
+        let mut vh = write_string(&self.topic_name)?;
         if self.qos > 0 {
             let msg_id = self.message_id.ok_or_else(|| {
                 ParseError::ParseError("Message ID is required for QoS > 0".to_string())
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index 001b4c1..b80adbf 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -2,10 +2,10 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
 use crate::mqtt_serde::parser::{
-    packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
+    packet_type, parse_remaining_length, parse_utf8_string, write_string, ParseError, ParseOk,
 };
 
 /// Represents a subscription to a single topic in a SUBSCRIBE packet.
@@ -55,7 +55,7 @@ impl MqttControlPacket for MqttSubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for sub in &self.subscriptions {
-            payload.extend(Utf8String::encode(&sub.topic_filter));
+            payload.extend(write_string(&sub.topic_filter)?);
             // QoS must be 0, 1, or 2.
             if sub.qos > 2 {
                 return Err(ParseError::ParseError("Invalid QoS level".to_string()));
diff --git a/src/mqtt_serde/mqttv3/unsubscribe.rs b/src/mqtt_serde/mqttv3/unsubscribe.rs
index 3a422d4..2ca359a 100644
--- a/src/mqtt_serde/mqttv3/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv3/unsubscribe.rs
@@ -2,10 +2,10 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
 use crate::mqtt_serde::parser::{
-    packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
+    packet_type, parse_remaining_length, parse_utf8_string, write_string, ParseError, ParseOk,
 };
 
 /// Represents the UNSUBSCRIBE packet in MQTT v3.1.1.
@@ -47,7 +47,7 @@ impl MqttControlPacket for MqttUnsubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for topic in &self.topic_filters {
-            payload.extend(Utf8String::encode(topic));
+            payload.extend(write_string(topic)?);
         }
         Ok(payload)
     }
diff --git a/src/mqtt_serde/parser/mod.rs b/src/mqtt_serde/parser/mod.rs
index 2fffba3..5f9fd05 100644
--- a/src/mqtt_serde/parser/mod.rs
+++ b/src/mqtt_serde/parser/mod.rs
@@ -111,6 +111,9 @@ pub fn read_string(buffer: &[u8]) -> Result<(String, usize), ParseError> {
 }
 
 pub fn write_string(s: &str) -> Result<Vec<u8>, ParseError> {
+    if s.len() > u16::MAX as usize {
+        return Err(ParseError::StringTooLong);
+    }
     Ok(Utf8String::encode(s))
 }
 
-- 
2.43.0


From b048e560c91e4c93bb6c601eb6a16853c49a1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:01 +0000
Subject: [PATCH 19/43] fix: an MQTT 5 CONNECT with an empty will payload, user
 name or password is decoded

---
 src/mqtt_serde/mqttv5/connect.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index bb31e24..39aad9d 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -257,9 +257,10 @@ impl MqttControlPacket for MqttConnect {
             // Will is present
             let (will, consumed) = Will::from_bytes(&buffer[offset..], connect_flags)?;
             offset += consumed;
-            if will.will_topic.is_empty() || will.will_message.is_empty() {
+            // The Will Payload may be empty
+            if will.will_topic.is_empty() {
                 return Err(ParseError::ParseError(
-                    "Will topic or message cannot be empty".to_string(),
+                    "Will topic cannot be empty".to_string(),
                 ));
             }
             Some(will)
@@ -273,11 +274,6 @@ impl MqttControlPacket for MqttConnect {
             let (username, consumed) =
                 parse_utf8_string(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if username.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Username cannot be empty".to_string(),
-                ));
-            }
             Some(username.to_string())
         } else {
             None
@@ -287,11 +283,6 @@ impl MqttControlPacket for MqttConnect {
             let (password, consumed) =
                 parse_binary_data(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if password.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Password cannot be empty".to_string(),
-                ));
-            }
             Some(password)
         } else {
             None
-- 
2.43.0


From 8d3b4817ad988eaeb7624aeca0372282887acbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:22 +0000
Subject: [PATCH 20/43] fix: packets whose reserved fixed header bits are set
 are refused like the other malformed packets

---
 src/mqtt_serde/mqttv3/connect.rs  | 6 ++++++
 src/mqtt_serde/mqttv5/connack.rs  | 8 ++++++++
 src/mqtt_serde/mqttv5/connect.rs  | 7 +++++++
 src/mqtt_serde/mqttv5/puback.rs   | 2 +-
 src/mqtt_serde/mqttv5/pubcomp.rs  | 2 +-
 src/mqtt_serde/mqttv5/pubrec.rs   | 2 +-
 src/mqtt_serde/mqttv5/suback.rs   | 7 +++++++
 src/mqtt_serde/mqttv5/unsuback.rs | 7 +++++++
 8 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index c114fc9..5feded2 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -113,6 +113,12 @@ impl MqttControlPacket for MqttConnect {
             return Err(ParseError::InvalidPacketType);
         }
 
+        if buffer[0] & 0x0F != 0 {
+            return Err(ParseError::ParseError(
+                "CONNECT packet has invalid fixed header flags".to_string(),
+            ));
+        }
+
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset = 1 + vbi_len;
         let total_len = offset + size;
diff --git a/src/mqtt_serde/mqttv5/connack.rs b/src/mqtt_serde/mqttv5/connack.rs
index 15fe834..eb339c7 100644
--- a/src/mqtt_serde/mqttv5/connack.rs
+++ b/src/mqtt_serde/mqttv5/connack.rs
@@ -61,6 +61,14 @@ pub fn parse_connack(buffer: &[u8]) -> Result<ParseOk, ParseError> {
         return Err(ParseError::InvalidPacketType);
     }
 
+    // Fixed header flags are reserved and must be 0
+    #[cfg(feature = "strict-protocol-compliance")]
+    if buffer[0] & 0x0F != 0 {
+        return Err(ParseError::ParseError(
+            "CONNACK fixed header flags must be 0000".to_string(),
+        ));
+    }
+
     let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
 
     let mut offset = 1 + vbi_len;
diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index 39aad9d..f8846e9 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -163,6 +163,13 @@ impl MqttControlPacket for MqttConnect {
         if packet_type != ControlPacketType::CONNECT as u8 {
             return Err(ParseError::InvalidPacketType);
         }
+        // Fixed header flags are reserved and must be 0
+        #[cfg(feature = "strict-protocol-compliance")]
+        if buffer[0] & 0x0F != 0 {
+            return Err(ParseError::ParseError(
+                "CONNECT fixed header flags must be 0000".to_string(),
+            ));
+        }
 
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset: usize = 1 + vbi_len;
diff --git a/src/mqtt_serde/mqttv5/puback.rs b/src/mqtt_serde/mqttv5/puback.rs
index aedc0ea..6d01eb1 100644
--- a/src/mqtt_serde/mqttv5/puback.rs
+++ b/src/mqtt_serde/mqttv5/puback.rs
@@ -2,7 +2,7 @@
 
 use crate::mqtt_serde::mqttv5::packet_id_ack::v5_packet_id_ack;
 
-v5_packet_id_ack!(MqttPubAck, PUBACK, 0x00, "PUBACK", PubAck5, false);
+v5_packet_id_ack!(MqttPubAck, PUBACK, 0x00, "PUBACK", PubAck5, true);
 
 #[cfg(test)]
 mod tests {
diff --git a/src/mqtt_serde/mqttv5/pubcomp.rs b/src/mqtt_serde/mqttv5/pubcomp.rs
index e3ebc98..1e0442f 100644
--- a/src/mqtt_serde/mqttv5/pubcomp.rs
+++ b/src/mqtt_serde/mqttv5/pubcomp.rs
@@ -2,7 +2,7 @@
 
 use crate::mqtt_serde::mqttv5::packet_id_ack::v5_packet_id_ack;
 
-v5_packet_id_ack!(MqttPubComp, PUBCOMP, 0x00, "PUBCOMP", PubComp5, false);
+v5_packet_id_ack!(MqttPubComp, PUBCOMP, 0x00, "PUBCOMP", PubComp5, true);
 
 #[cfg(test)]
 mod tests {
diff --git a/src/mqtt_serde/mqttv5/pubrec.rs b/src/mqtt_serde/mqttv5/pubrec.rs
index e2abbf4..4eaf6b9 100644
--- a/src/mqtt_serde/mqttv5/pubrec.rs
+++ b/src/mqtt_serde/mqttv5/pubrec.rs
@@ -2,7 +2,7 @@
 
 use crate::mqtt_serde::mqttv5::packet_id_ack::v5_packet_id_ack;
 
-v5_packet_id_ack!(MqttPubRec, PUBREC, 0x00, "PUBREC", PubRec5, false);
+v5_packet_id_ack!(MqttPubRec, PUBREC, 0x00, "PUBREC", PubRec5, true);
 
 #[cfg(test)]
 mod tests {
diff --git a/src/mqtt_serde/mqttv5/suback.rs b/src/mqtt_serde/mqttv5/suback.rs
index f608cc7..1e6c46e 100644
--- a/src/mqtt_serde/mqttv5/suback.rs
+++ b/src/mqtt_serde/mqttv5/suback.rs
@@ -102,6 +102,13 @@ impl MqttControlPacket for MqttSubAck {
         if packet_type != ControlPacketType::SUBACK as u8 {
             return Err(ParseError::InvalidPacketType);
         }
+        // Fixed header flags are reserved and must be 0
+        #[cfg(feature = "strict-protocol-compliance")]
+        if buffer[0] & 0x0F != 0 {
+            return Err(ParseError::ParseError(
+                "SUBACK fixed header flags must be 0000".to_string(),
+            ));
+        }
 
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset: usize = 1 + vbi_len;
diff --git a/src/mqtt_serde/mqttv5/unsuback.rs b/src/mqtt_serde/mqttv5/unsuback.rs
index be77ae6..8570b32 100644
--- a/src/mqtt_serde/mqttv5/unsuback.rs
+++ b/src/mqtt_serde/mqttv5/unsuback.rs
@@ -102,6 +102,13 @@ impl MqttControlPacket for MqttUnsubAck {
         if packet_type != ControlPacketType::UNSUBACK as u8 {
             return Err(ParseError::InvalidPacketType);
         }
+        // Fixed header flags are reserved and must be 0
+        #[cfg(feature = "strict-protocol-compliance")]
+        if buffer[0] & 0x0F != 0 {
+            return Err(ParseError::ParseError(
+                "UNSUBACK fixed header flags must be 0000".to_string(),
+            ));
+        }
 
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset: usize = 1 + vbi_len;
-- 
2.43.0


From 4fe5752b11647191cae672c8cb14f4d07ad45b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:23 +0000
Subject: [PATCH 21/43] fix: an MQTT 5 SUBSCRIBE with QoS 3 or retain handling
 3 is refused

---
 src/mqtt_serde/mqttv5/subscribe.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt_serde/mqttv5/subscribe.rs b/src/mqtt_serde/mqttv5/subscribe.rs
index 907b022..0efa122 100644
--- a/src/mqtt_serde/mqttv5/subscribe.rs
+++ b/src/mqtt_serde/mqttv5/subscribe.rs
@@ -129,6 +129,14 @@ impl TopicSubscription {
         let (qos, no_local, retain_as_published, retain_handling) =
             Self::decode_subscription_options(options);
 
+        // MQTT 5.0 Protocol Compliance: QoS 3 and Retain Handling 3 are Protocol Errors
+        #[cfg(feature = "strict-protocol-compliance")]
+        if qos > 2 || retain_handling > 2 {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE Maximum QoS and Retain Handling must not be 3".to_string(),
+            ));
+        }
+
         // MQTT 5.0 Protocol Compliance: No Local flag validation for Shared Subscriptions
         #[cfg(feature = "strict-protocol-compliance")]
         if no_local && topic_filter.starts_with("$share/") {
-- 
2.43.0


From d327438bda1da63201eea47f409e1b5d1036ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:24 +0000
Subject: [PATCH 22/43] fix: malformed MQTT 3.1.1 CONNECT, PUBLISH, SUBSCRIBE
 and SUBACK packets are refused

---
 src/mqtt_serde/mqttv3/connect.rs   |  5 +++++
 src/mqtt_serde/mqttv3/publish.rs   | 10 ++++++++++
 src/mqtt_serde/mqttv3/suback.rs    |  5 +++++
 src/mqtt_serde/mqttv3/subscribe.rs |  6 ++++++
 4 files changed, 26 insertions(+)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index 5feded2..129acee 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -168,6 +168,11 @@ impl MqttControlPacket for MqttConnect {
                 "Password flag requires username flag".to_string(),
             ));
         }
+        if will_qos == 3 || (!will_flag && (will_qos != 0 || will_retain)) {
+            return Err(ParseError::ParseError(
+                "Invalid Will QoS or Will Retain flag".to_string(),
+            ));
+        }
 
         let (keep_alive, _) = TwoByteInteger::decode(&buffer[offset..])?;
         offset += 2;
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index eff41df..36404ce 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -83,6 +83,11 @@ impl MqttControlPacket for MqttPublish {
         if qos > 2 {
             return Err(ParseError::ParseError("Invalid QoS level".to_string()));
         }
+        if dup && qos == 0 {
+            return Err(ParseError::ParseError(
+                "PUBLISH DUP flag must be 0 for QoS 0 messages".to_string(),
+            ));
+        }
 
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset = 1 + vbi_len;
@@ -95,6 +100,11 @@ impl MqttControlPacket for MqttPublish {
         // Variable Header
         let (topic_name, consumed) = parse_utf8_string(&buffer[offset..total_len])?;
         offset += consumed;
+        if topic_name.contains('#') || topic_name.contains('+') {
+            return Err(ParseError::ParseError(
+                "PUBLISH Topic Name must not contain wildcard characters (# or +)".to_string(),
+            ));
+        }
 
         let message_id = if qos > 0 {
             if offset + 2 > total_len {
diff --git a/src/mqtt_serde/mqttv3/suback.rs b/src/mqtt_serde/mqttv3/suback.rs
index 3d8e6b3..14e45cd 100644
--- a/src/mqtt_serde/mqttv3/suback.rs
+++ b/src/mqtt_serde/mqttv3/suback.rs
@@ -82,6 +82,11 @@ impl MqttControlPacket for MqttSubAck {
 
         // Payload: Return Codes
         let return_codes = buffer[offset..total_len].to_vec();
+        if return_codes.is_empty() {
+            return Err(ParseError::ParseError(
+                "SUBACK payload must contain at least one return code".to_string(),
+            ));
+        }
         for &code in &return_codes {
             if !matches!(code, 0x00 | 0x01 | 0x02 | 0x80) {
                 return Err(ParseError::ParseError(format!(
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index b80adbf..a6effab 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -125,6 +125,12 @@ impl MqttControlPacket for MqttSubscribe {
             ));
         }
 
+        if subscriptions.is_empty() {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE payload must contain at least one subscription".to_string(),
+            ));
+        }
+
         Ok(ParseOk::Packet(
             MqttPacket::Subscribe3(MqttSubscribe::new(message_id, subscriptions)),
             total_len,
-- 
2.43.0


From ce3f510c7564e57b897e8b4ceacf10654d2ccc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:24 +0000
Subject: [PATCH 23/43] fix: PUBLISH, SUBSCRIBE and UNSUBSCRIBE with packet
 identifier 0 are refused

---
 src/mqtt_serde/mqttv3/publish.rs     | 5 +++++
 src/mqtt_serde/mqttv3/subscribe.rs   | 5 +++++
 src/mqtt_serde/mqttv3/unsubscribe.rs | 5 +++++
 src/mqtt_serde/mqttv5/publish.rs     | 7 +++++++
 4 files changed, 22 insertions(+)

diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index 36404ce..ede473e 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -113,6 +113,11 @@ impl MqttControlPacket for MqttPublish {
                 ));
             }
             let id = u16::from_be_bytes([buffer[offset], buffer[offset + 1]]);
+            if id == 0 {
+                return Err(ParseError::ParseError(
+                    "PUBLISH message ID must be > 0".to_string(),
+                ));
+            }
             offset += 2;
             Some(id)
         } else {
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index a6effab..3103367 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -94,6 +94,11 @@ impl MqttControlPacket for MqttSubscribe {
             ));
         }
         let message_id = u16::from_be_bytes([buffer[offset], buffer[offset + 1]]);
+        if message_id == 0 {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE message ID must be > 0".to_string(),
+            ));
+        }
         offset += 2;
 
         // Payload: Subscriptions
diff --git a/src/mqtt_serde/mqttv3/unsubscribe.rs b/src/mqtt_serde/mqttv3/unsubscribe.rs
index 2ca359a..c54b552 100644
--- a/src/mqtt_serde/mqttv3/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv3/unsubscribe.rs
@@ -81,6 +81,11 @@ impl MqttControlPacket for MqttUnsubscribe {
             ));
         }
         let message_id = u16::from_be_bytes([buffer[offset], buffer[offset + 1]]);
+        if message_id == 0 {
+            return Err(ParseError::ParseError(
+                "UNSUBSCRIBE message ID must be > 0".to_string(),
+            ));
+        }
         offset += 2;
 
         // Payload: Topic Filters
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 29211de..8db03e9 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -191,6 +191,13 @@ impl MqttControlPacket for MqttPublish {
             let (packet_id, consumed) =
                 parse_packet_id(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
+
+            #[cfg(feature = "strict-protocol-compliance")]
+            if packet_id == 0 {
+                return Err(ParseError::ParseError(
+                    "PUBLISH packet_id must be > 0".to_string(),
+                ));
+            }
             Some(packet_id)
         } else {
             None
-- 
2.43.0


From ef3241d26160b61921d3be1166bbb99d14f4eb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:25 +0000
Subject: [PATCH 24/43] fix: strings with a null character are neither accepted
 nor sent, as documented

---
 src/mqtt_serde/base_data.rs  | 2 ++
 src/mqtt_serde/parser/mod.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mqtt_serde/base_data.rs b/src/mqtt_serde/base_data.rs
index ee0b8ef..272f714 100644
--- a/src/mqtt_serde/base_data.rs
+++ b/src/mqtt_serde/base_data.rs
@@ -142,6 +142,8 @@ impl Utf8String {
     pub fn decode(bytes: &[u8]) -> Result<(String, usize), ParseError> {
         let (data, len) = BinaryData::decode(bytes)?;
         let s = String::from_utf8(data).map_err(|e| ParseError::Utf8Error(e.utf8_error()))?;
+        #[cfg(feature = "strict-protocol-compliance")]
+        crate::mqtt_serde::validate_mqtt_utf8_string(&s)?;
         Ok((s, len))
     }
 }
diff --git a/src/mqtt_serde/parser/mod.rs b/src/mqtt_serde/parser/mod.rs
index 5f9fd05..c78309d 100644
--- a/src/mqtt_serde/parser/mod.rs
+++ b/src/mqtt_serde/parser/mod.rs
@@ -114,6 +114,8 @@ pub fn write_string(s: &str) -> Result<Vec<u8>, ParseError> {
     if s.len() > u16::MAX as usize {
         return Err(ParseError::StringTooLong);
     }
+    #[cfg(feature = "strict-protocol-compliance")]
+    crate::mqtt_serde::validate_mqtt_utf8_string(s)?;
     Ok(Utf8String::encode(s))
 }
 
-- 
2.43.0


From 10dc96d085be1c187018be140698096fbb51e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:58 +0000
Subject: [PATCH 25/43] fix: FFI TLS and QUIC publish return -1 for an invalid
 message instead of panicking

---
 flowsdk_ffi/src/engine.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 2073f74..74c5dbd 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -460,12 +460,15 @@ impl TlsMqttEngineFFI {
     }
 
     pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8) -> i32 {
-        let command = PublishCommand::builder()
+        let command = match PublishCommand::builder()
             .topic(topic)
             .payload(payload)
             .qos(qos)
             .build()
-            .unwrap();
+        {
+            Ok(c) => c,
+            Err(_) => return -1,
+        };
         match self.engine.lock().unwrap().publish(command) {
             Ok(Some(pid)) => pid as i32,
             Ok(None) => 0,
@@ -726,12 +729,15 @@ impl QuicMqttEngineFFI {
     }
 
     pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8) -> i32 {
-        let command = PublishCommand::builder()
+        let command = match PublishCommand::builder()
             .topic(topic)
             .payload(payload)
             .qos(qos)
             .build()
-            .unwrap();
+        {
+            Ok(c) => c,
+            Err(_) => return -1,
+        };
         match self.engine.lock().unwrap().publish(command) {
             Ok(Some(pid)) => pid as i32,
             Ok(None) => 0,
-- 
2.43.0


From 391ddf8cb0dbfd82b1cc654a2ceb48ea84c6c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:58 +0000
Subject: [PATCH 26/43] fix: FFI TLS and QUIC engines use the configured user
 name and password

---
 flowsdk_ffi/src/engine.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 74c5dbd..e19c2e9 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -341,15 +341,24 @@ pub struct TlsMqttEngineFFI {
 impl TlsMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
-        let options = MqttClientOptions::builder()
+        let mut builder = MqttClientOptions::builder()
             .client_id(opts.client_id)
             .mqtt_version(opts.mqtt_version)
             .clean_start(opts.clean_start)
             .keep_alive(opts.keep_alive)
             .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
             .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+            .max_reconnect_attempts(opts.max_reconnect_attempts);
+
+        if let Some(username) = opts.username {
+            builder = builder.username(username);
+        }
+
+        if let Some(password) = opts.password {
+            builder = builder.password(password);
+        }
+
+        let options = builder.build();
 
         #[cfg(feature = "quic-openssl")]
         let _ = rustls_openssl::default_provider().install_default();
@@ -609,15 +618,24 @@ pub struct QuicMqttEngineFFI {
 impl QuicMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI) -> Self {
-        let options = MqttClientOptions::builder()
+        let mut builder = MqttClientOptions::builder()
             .client_id(opts.client_id)
             .mqtt_version(opts.mqtt_version)
             .clean_start(opts.clean_start)
             .keep_alive(opts.keep_alive)
             .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
             .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+            .max_reconnect_attempts(opts.max_reconnect_attempts);
+
+        if let Some(username) = opts.username {
+            builder = builder.username(username);
+        }
+
+        if let Some(password) = opts.password {
+            builder = builder.password(password);
+        }
+
+        let options = builder.build();
 
         let engine = QuicMqttEngine::new(options).unwrap();
         QuicMqttEngineFFI {
-- 
2.43.0


From e6adaf1f485ae81cb82ff1ff342992380f93cf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:58 +0000
Subject: [PATCH 27/43] fix: FFI QUIC connect reports failures and bad
 addresses no longer panic

---
 flowsdk_ffi/src/engine.rs | 137 ++++++++++++++++++++++----------------
 1 file changed, 80 insertions(+), 57 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index e19c2e9..a742bb5 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -652,61 +652,12 @@ impl QuicMqttEngineFFI {
         tls_opts: MqttTlsOptionsFFI,
         now_ms: u64,
     ) {
-        let addr: SocketAddr = server_addr.parse().unwrap();
-        let now = self.start_time + Duration::from_millis(now_ms);
-
-        #[cfg(feature = "quic-openssl")]
-        let _ = rustls_openssl::default_provider().install_default();
-        #[cfg(not(feature = "quic-openssl"))]
-        let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
-                    root_store.add(cert).ok();
-                }
-            }
-            crypto_builder
-                .with_root_certificates(root_store)
-                .with_no_client_auth()
-        };
-
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
+        if let Err(message) = self.try_connect(server_addr, server_name, tls_opts, now_ms) {
+            self.events
+                .lock()
+                .unwrap()
+                .push(MqttEventFFI::Error { message });
         }
-
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
-
-        self.engine
-            .lock()
-            .unwrap()
-            .connect(addr, &server_name, config, now)
-            .ok();
     }
 
     fn elapsed_ms(&self) -> u64 {
@@ -714,7 +665,9 @@ impl QuicMqttEngineFFI {
     }
 
     pub fn handle_datagram(&self, data: Vec<u8>, remote_addr: String, now_ms: u64) {
-        let addr: SocketAddr = remote_addr.parse().unwrap();
+        let Ok(addr) = remote_addr.parse::<SocketAddr>() else {
+            return;
+        };
         let now = self.start_time + Duration::from_millis(now_ms);
         self.engine.lock().unwrap().handle_datagram(data, addr, now);
     }
@@ -789,6 +742,74 @@ impl QuicMqttEngineFFI {
     }
 }
 
+impl QuicMqttEngineFFI {
+    fn try_connect(
+        &self,
+        server_addr: String,
+        server_name: String,
+        tls_opts: MqttTlsOptionsFFI,
+        now_ms: u64,
+    ) -> Result<(), String> {
+        let addr: SocketAddr = server_addr
+            .parse()
+            .map_err(|e| format!("Invalid server address: {}", e))?;
+        let now = self.start_time + Duration::from_millis(now_ms);
+
+        #[cfg(feature = "quic-openssl")]
+        let _ = rustls_openssl::default_provider().install_default();
+        #[cfg(not(feature = "quic-openssl"))]
+        let _ = rustls::crypto::ring::default_provider().install_default();
+        let crypto_builder = rustls::ClientConfig::builder();
+
+        let mut config = if tls_opts.insecure_skip_verify {
+            crypto_builder
+                .dangerous()
+                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
+                .with_no_client_auth()
+        } else {
+            let mut root_store = rustls::RootCertStore::empty();
+            if let Some(ca_path) = tls_opts.ca_cert_file {
+                if let Ok(file) = std::fs::File::open(ca_path) {
+                    let mut reader = std::io::BufReader::new(file);
+                    let certs = rustls_pemfile::certs(&mut reader)
+                        .filter_map(|r| r.ok())
+                        .collect::<Vec<_>>();
+                    for cert in certs {
+                        root_store.add(cert).ok();
+                    }
+                }
+            } else {
+                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
+                    root_store.add(cert).ok();
+                }
+            }
+            crypto_builder
+                .with_root_certificates(root_store)
+                .with_no_client_auth()
+        };
+
+        if !tls_opts.alpn_protocols.is_empty() {
+            config.alpn_protocols = tls_opts
+                .alpn_protocols
+                .into_iter()
+                .map(|s| s.into_bytes())
+                .collect();
+        } else {
+            config.alpn_protocols = vec![b"mqtt".to_vec()];
+        }
+
+        if tls_opts.enable_key_log {
+            config.key_log = Arc::new(rustls::KeyLogFile::new());
+        }
+
+        self.engine
+            .lock()
+            .unwrap()
+            .connect(addr, &server_name, config, now)
+            .map_err(|e| e.to_string())
+    }
+}
+
 // --- C-Compatible FFI Layer ---
 // This layer provides a stable ABI for the C examples, mapping to the UniFFI objects.
 
@@ -1451,8 +1472,10 @@ pub unsafe extern "C" fn mqtt_quic_engine_connect(
             }
         };
 
-        engine.connect(server_addr, server_name, tls_opts_v, engine.elapsed_ms());
-        0
+        match engine.try_connect(server_addr, server_name, tls_opts_v, engine.elapsed_ms()) {
+            Ok(()) => 0,
+            Err(_) => -1,
+        }
     } else {
         -1
     }
-- 
2.43.0


From e5af97fb8711e0a478b339e69641390a909fc76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:21 +0000
Subject: [PATCH 28/43] fix: FFI TLS engine creation returns null for a bad
 server name or client certificate instead of panicking

---
 flowsdk_ffi/src/engine.rs | 180 +++++++++++++++++++++-----------------
 1 file changed, 102 insertions(+), 78 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index a742bb5..af33fd6 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -341,6 +341,86 @@ pub struct TlsMqttEngineFFI {
 impl TlsMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
+        Self::try_new(opts, tls_opts, server_name).unwrap()
+    }
+
+    pub fn handle_socket_data(&self, data: Vec<u8>) {
+        self.engine.lock().unwrap().handle_socket_data(&data).ok();
+    }
+
+    pub fn take_socket_data(&self) -> Vec<u8> {
+        self.engine.lock().unwrap().take_socket_data()
+    }
+
+    pub fn handle_tick(&self, now_ms: u64) -> Vec<MqttEventFFI> {
+        let now = self.start_time + Duration::from_millis(now_ms);
+        let events = self.engine.lock().unwrap().handle_tick(now);
+        let mapped: Vec<_> = events.into_iter().filter_map(map_event).collect();
+        self.events.lock().unwrap().extend(mapped.iter().cloned());
+        mapped
+    }
+
+    pub fn take_events(&self) -> Vec<MqttEventFFI> {
+        let mut events = std::mem::take(&mut *self.events.lock().unwrap());
+        let engine_events = self.engine.lock().unwrap().take_events();
+        events.extend(engine_events.into_iter().filter_map(map_event));
+        events
+    }
+
+    pub fn connect(&self) {
+        self.engine.lock().unwrap().connect();
+    }
+
+    pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8) -> i32 {
+        let command = match PublishCommand::builder()
+            .topic(topic)
+            .payload(payload)
+            .qos(qos)
+            .build()
+        {
+            Ok(c) => c,
+            Err(_) => return -1,
+        };
+        match self.engine.lock().unwrap().publish(command) {
+            Ok(Some(pid)) => pid as i32,
+            Ok(None) => 0,
+            Err(_) => -1,
+        }
+    }
+
+    pub fn subscribe(&self, topic_filter: String, qos: u8) -> i32 {
+        let command = flowsdk::mqtt_client::commands::SubscribeCommand::single(topic_filter, qos);
+        match self.engine.lock().unwrap().subscribe(command) {
+            Ok(pid) => pid as i32,
+            Err(_) => -1,
+        }
+    }
+
+    pub fn unsubscribe(&self, topic_filter: String) -> i32 {
+        let command =
+            flowsdk::mqtt_client::commands::UnsubscribeCommand::from_topics(vec![topic_filter]);
+        match self.engine.lock().unwrap().unsubscribe(command) {
+            Ok(pid) => pid as i32,
+            Err(_) => -1,
+        }
+    }
+
+    pub fn disconnect(&self) {
+        self.engine.lock().unwrap().disconnect();
+    }
+
+    pub fn is_connected(&self) -> bool {
+        self.engine.lock().unwrap().is_connected()
+    }
+}
+
+#[cfg(feature = "tls")]
+impl TlsMqttEngineFFI {
+    fn try_new(
+        opts: MqttOptionsFFI,
+        tls_opts: MqttTlsOptionsFFI,
+        server_name: String,
+    ) -> Result<Self, String> {
         let mut builder = MqttClientOptions::builder()
             .client_id(opts.client_id)
             .mqtt_version(opts.mqtt_version)
@@ -413,7 +493,9 @@ impl TlsMqttEngineFFI {
 
             let builder = crypto_builder.with_root_certificates(root_store);
             if let Some((certs, key)) = client_auth {
-                builder.with_client_auth_cert(certs, key).unwrap()
+                builder
+                    .with_client_auth_cert(certs, key)
+                    .map_err(|e| format!("Invalid client certificate: {}", e))?
             } else {
                 builder.with_no_client_auth()
             }
@@ -433,81 +515,13 @@ impl TlsMqttEngineFFI {
             config.key_log = Arc::new(rustls::KeyLogFile::new());
         }
 
-        let engine = TlsMqttEngine::new(options, &server_name, Arc::new(config)).unwrap();
-        TlsMqttEngineFFI {
+        let engine = TlsMqttEngine::new(options, &server_name, Arc::new(config))
+            .map_err(|e| e.to_string())?;
+        Ok(TlsMqttEngineFFI {
             engine: Mutex::new(engine),
             start_time: Instant::now(),
             events: Mutex::new(Vec::new()),
-        }
-    }
-
-    pub fn handle_socket_data(&self, data: Vec<u8>) {
-        self.engine.lock().unwrap().handle_socket_data(&data).ok();
-    }
-
-    pub fn take_socket_data(&self) -> Vec<u8> {
-        self.engine.lock().unwrap().take_socket_data()
-    }
-
-    pub fn handle_tick(&self, now_ms: u64) -> Vec<MqttEventFFI> {
-        let now = self.start_time + Duration::from_millis(now_ms);
-        let events = self.engine.lock().unwrap().handle_tick(now);
-        let mapped: Vec<_> = events.into_iter().filter_map(map_event).collect();
-        self.events.lock().unwrap().extend(mapped.iter().cloned());
-        mapped
-    }
-
-    pub fn take_events(&self) -> Vec<MqttEventFFI> {
-        let mut events = std::mem::take(&mut *self.events.lock().unwrap());
-        let engine_events = self.engine.lock().unwrap().take_events();
-        events.extend(engine_events.into_iter().filter_map(map_event));
-        events
-    }
-
-    pub fn connect(&self) {
-        self.engine.lock().unwrap().connect();
-    }
-
-    pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8) -> i32 {
-        let command = match PublishCommand::builder()
-            .topic(topic)
-            .payload(payload)
-            .qos(qos)
-            .build()
-        {
-            Ok(c) => c,
-            Err(_) => return -1,
-        };
-        match self.engine.lock().unwrap().publish(command) {
-            Ok(Some(pid)) => pid as i32,
-            Ok(None) => 0,
-            Err(_) => -1,
-        }
-    }
-
-    pub fn subscribe(&self, topic_filter: String, qos: u8) -> i32 {
-        let command = flowsdk::mqtt_client::commands::SubscribeCommand::single(topic_filter, qos);
-        match self.engine.lock().unwrap().subscribe(command) {
-            Ok(pid) => pid as i32,
-            Err(_) => -1,
-        }
-    }
-
-    pub fn unsubscribe(&self, topic_filter: String) -> i32 {
-        let command =
-            flowsdk::mqtt_client::commands::UnsubscribeCommand::from_topics(vec![topic_filter]);
-        match self.engine.lock().unwrap().unsubscribe(command) {
-            Ok(pid) => pid as i32,
-            Err(_) => -1,
-        }
-    }
-
-    pub fn disconnect(&self) {
-        self.engine.lock().unwrap().disconnect();
-    }
-
-    pub fn is_connected(&self) -> bool {
-        self.engine.lock().unwrap().is_connected()
+        })
     }
 }
 
@@ -565,6 +579,17 @@ impl TlsMqttEngineFFI {
     }
 }
 
+#[cfg(not(feature = "tls"))]
+impl TlsMqttEngineFFI {
+    fn try_new(
+        opts: MqttOptionsFFI,
+        tls_opts: MqttTlsOptionsFFI,
+        server_name: String,
+    ) -> Result<Self, String> {
+        Ok(Self::new(opts, tls_opts, server_name))
+    }
+}
+
 #[derive(Debug)]
 struct InsecureServerCertVerifier;
 
@@ -1177,11 +1202,10 @@ pub unsafe extern "C" fn mqtt_tls_engine_new(
         }
     };
 
-    Box::into_raw(Box::new(TlsMqttEngineFFI::new(
-        opts,
-        tls_opts_v,
-        server_name,
-    )))
+    match TlsMqttEngineFFI::try_new(opts, tls_opts_v, server_name) {
+        Ok(engine) => Box::into_raw(Box::new(engine)),
+        Err(_) => std::ptr::null_mut(),
+    }
 }
 
 /// # Safety
-- 
2.43.0


From 105fd6f60f296dae55fca4e345043ae3883ca256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:55 +0000
Subject: [PATCH 29/43] fix: FFI QUIC connect honours the client certificate
 and ALPN options

---
 flowsdk_ffi/src/engine.rs | 208 ++++++++++++++++----------------------
 1 file changed, 86 insertions(+), 122 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index af33fd6..6025567 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -440,81 +440,7 @@ impl TlsMqttEngineFFI {
 
         let options = builder.build();
 
-        #[cfg(feature = "quic-openssl")]
-        let _ = rustls_openssl::default_provider().install_default();
-        #[cfg(not(feature = "quic-openssl"))]
-        let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
-                    root_store.add(cert).ok();
-                }
-            }
-
-            let mut client_auth = None;
-            if let (Some(cert_path), Some(key_path)) =
-                (tls_opts.client_cert_file, tls_opts.client_key_file)
-            {
-                if let (Ok(cert_file), Ok(key_file)) = (
-                    std::fs::File::open(cert_path),
-                    std::fs::File::open(key_path),
-                ) {
-                    let mut cert_reader = std::io::BufReader::new(cert_file);
-                    let mut key_reader = std::io::BufReader::new(key_file);
-                    let certs = rustls_pemfile::certs(&mut cert_reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    let key = rustls_pemfile::private_key(&mut key_reader).ok().flatten();
-                    if !certs.is_empty() {
-                        if let Some(key) = key {
-                            client_auth = Some((certs, key));
-                        }
-                    }
-                }
-            }
-
-            let builder = crypto_builder.with_root_certificates(root_store);
-            if let Some((certs, key)) = client_auth {
-                builder
-                    .with_client_auth_cert(certs, key)
-                    .map_err(|e| format!("Invalid client certificate: {}", e))?
-            } else {
-                builder.with_no_client_auth()
-            }
-        };
-
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
-        }
-
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
-
+        let config = client_config(tls_opts)?;
         let engine = TlsMqttEngine::new(options, &server_name, Arc::new(config))
             .map_err(|e| e.to_string())?;
         Ok(TlsMqttEngineFFI {
@@ -590,6 +516,84 @@ impl TlsMqttEngineFFI {
     }
 }
 
+/// TLS configuration shared by the TLS and QUIC engines.
+fn client_config(tls_opts: MqttTlsOptionsFFI) -> Result<rustls::ClientConfig, String> {
+    #[cfg(feature = "quic-openssl")]
+    let _ = rustls_openssl::default_provider().install_default();
+    #[cfg(not(feature = "quic-openssl"))]
+    let _ = rustls::crypto::ring::default_provider().install_default();
+    let crypto_builder = rustls::ClientConfig::builder();
+
+    let builder = if tls_opts.insecure_skip_verify {
+        crypto_builder
+            .dangerous()
+            .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
+    } else {
+        let mut root_store = rustls::RootCertStore::empty();
+        if let Some(ca_path) = tls_opts.ca_cert_file {
+            if let Ok(file) = std::fs::File::open(ca_path) {
+                let mut reader = std::io::BufReader::new(file);
+                let certs = rustls_pemfile::certs(&mut reader)
+                    .filter_map(|r| r.ok())
+                    .collect::<Vec<_>>();
+                for cert in certs {
+                    root_store.add(cert).ok();
+                }
+            }
+        } else {
+            for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
+                root_store.add(cert).ok();
+            }
+        }
+        crypto_builder.with_root_certificates(root_store)
+    };
+
+    let mut client_auth = None;
+    if let (Some(cert_path), Some(key_path)) = (tls_opts.client_cert_file, tls_opts.client_key_file)
+    {
+        if let (Ok(cert_file), Ok(key_file)) = (
+            std::fs::File::open(cert_path),
+            std::fs::File::open(key_path),
+        ) {
+            let mut cert_reader = std::io::BufReader::new(cert_file);
+            let mut key_reader = std::io::BufReader::new(key_file);
+            let certs = rustls_pemfile::certs(&mut cert_reader)
+                .filter_map(|r| r.ok())
+                .collect::<Vec<_>>();
+            let key = rustls_pemfile::private_key(&mut key_reader).ok().flatten();
+            if !certs.is_empty() {
+                if let Some(key) = key {
+                    client_auth = Some((certs, key));
+                }
+            }
+        }
+    }
+
+    let mut config = if let Some((certs, key)) = client_auth {
+        builder
+            .with_client_auth_cert(certs, key)
+            .map_err(|e| format!("Invalid client certificate: {}", e))?
+    } else {
+        builder.with_no_client_auth()
+    };
+
+    if !tls_opts.alpn_protocols.is_empty() {
+        config.alpn_protocols = tls_opts
+            .alpn_protocols
+            .into_iter()
+            .map(|s| s.into_bytes())
+            .collect();
+    } else {
+        config.alpn_protocols = vec![b"mqtt".to_vec()];
+    }
+
+    if tls_opts.enable_key_log {
+        config.key_log = Arc::new(rustls::KeyLogFile::new());
+    }
+
+    Ok(config)
+}
+
 #[derive(Debug)]
 struct InsecureServerCertVerifier;
 
@@ -780,52 +784,7 @@ impl QuicMqttEngineFFI {
             .map_err(|e| format!("Invalid server address: {}", e))?;
         let now = self.start_time + Duration::from_millis(now_ms);
 
-        #[cfg(feature = "quic-openssl")]
-        let _ = rustls_openssl::default_provider().install_default();
-        #[cfg(not(feature = "quic-openssl"))]
-        let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
-                    root_store.add(cert).ok();
-                }
-            }
-            crypto_builder
-                .with_root_certificates(root_store)
-                .with_no_client_auth()
-        };
-
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
-        }
-
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
+        let config = client_config(tls_opts)?;
 
         self.engine
             .lock()
@@ -1486,12 +1445,17 @@ pub unsafe extern "C" fn mqtt_quic_engine_connect(
                         .into_owned(),
                 )
             };
+            let alpn_protocols = if r.alpn.is_null() {
+                vec!["mqtt".to_string()]
+            } else {
+                vec![CStr::from_ptr(r.alpn).to_string_lossy().into_owned()]
+            };
             MqttTlsOptionsFFI {
                 ca_cert_file,
                 client_cert_file,
                 client_key_file,
                 insecure_skip_verify: r.insecure_skip_verify != 0,
-                alpn_protocols: vec!["mqtt".to_string()],
+                alpn_protocols,
                 enable_key_log: r.enable_key_log != 0,
             }
         };
-- 
2.43.0


From b4856555c96bb30d2495aecad9caf567dc75a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:36 +0000
Subject: [PATCH 30/43] fix: C engine constructors return null for an
 unsupported MQTT version instead of panicking

---
 flowsdk_ffi/src/engine.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 6025567..fa7c04f 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -797,6 +797,11 @@ impl QuicMqttEngineFFI {
 // --- C-Compatible FFI Layer ---
 // This layer provides a stable ABI for the C examples, mapping to the UniFFI objects.
 
+/// The options builder panics on any other version, which must not cross the C boundary.
+fn is_supported_version(mqtt_version: u8) -> bool {
+    matches!(mqtt_version, 3..=5)
+}
+
 /// # Safety
 ///
 /// This function is unsafe because it dereferences a raw pointer for `client_id`
@@ -806,6 +811,9 @@ pub unsafe extern "C" fn mqtt_engine_new(
     client_id: *const c_char,
     mqtt_version: u8,
 ) -> *mut MqttEngineFFI {
+    if !is_supported_version(mqtt_version) {
+        return std::ptr::null_mut();
+    }
     let client_id = if client_id.is_null() {
         None
     } else {
@@ -826,6 +834,9 @@ pub unsafe extern "C" fn mqtt_engine_new_with_opts(
         return std::ptr::null_mut();
     }
     let r = &*opts;
+    if !is_supported_version(r.mqtt_version) {
+        return std::ptr::null_mut();
+    }
     let client_id = if r.client_id.is_null() {
         "mqtt_client".to_string()
     } else {
@@ -1085,6 +1096,9 @@ pub unsafe extern "C" fn mqtt_tls_engine_new(
     server_name: *const c_char,
     tls_opts: *const MqttTlsOptionsC,
 ) -> *mut TlsMqttEngineFFI {
+    if !is_supported_version(mqtt_version) {
+        return std::ptr::null_mut();
+    }
     let client_id = if client_id.is_null() {
         "mqtt_client".to_string()
     } else {
@@ -1361,6 +1375,9 @@ pub unsafe extern "C" fn mqtt_quic_engine_new(
     client_id: *const c_char,
     mqtt_version: u8,
 ) -> *mut QuicMqttEngineFFI {
+    if !is_supported_version(mqtt_version) {
+        return std::ptr::null_mut();
+    }
     let client_id = if client_id.is_null() {
         "mqtt_client".to_string()
     } else {
-- 
2.43.0


From 7a6a5ee38ea6bcb04e7e40111fde1d4b6821f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:02 +0000
Subject: [PATCH 31/43] fix: C event getters replace NUL in text from the peer
 instead of panicking

---
 flowsdk_ffi/src/engine.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index fa7c04f..f8d932f 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -802,6 +802,14 @@ fn is_supported_version(mqtt_version: u8) -> bool {
     matches!(mqtt_version, 3..=5)
 }
 
+/// A C string for the caller to release. The text may come from the peer, and a C string
+/// cannot hold NUL: it is replaced, as invalid UTF-8 is on the way in.
+fn into_c_string(text: &str) -> *mut c_char {
+    CString::new(text.replace('\0', "\u{FFFD}"))
+        .unwrap_or_default()
+        .into_raw()
+}
+
 /// # Safety
 ///
 /// This function is unsafe because it dereferences a raw pointer for `client_id`
@@ -1823,7 +1831,7 @@ pub unsafe extern "C" fn mqtt_event_list_get_message_topic(
 ) -> *mut c_char {
     if let Some(list) = ptr.as_ref() {
         if let Some(MqttEventFFI::MessageReceived(msg)) = list.events.get(index) {
-            return CString::new(msg.topic.clone()).unwrap().into_raw();
+            return into_c_string(&msg.topic);
         }
     }
     std::ptr::null_mut()
@@ -1896,7 +1904,7 @@ pub unsafe extern "C" fn mqtt_event_list_get_error_message(
 ) -> *mut c_char {
     if let Some(list) = ptr.as_ref() {
         if let Some(MqttEventFFI::Error { message }) = list.events.get(index) {
-            return CString::new(message.clone()).unwrap().into_raw();
+            return into_c_string(message);
         }
     }
     std::ptr::null_mut()
@@ -1952,7 +1960,7 @@ pub unsafe extern "C" fn mqtt_event_list_get_stream_close_reason(
 ) -> *mut c_char {
     if let Some(list) = ptr.as_ref() {
         if let Some(MqttEventFFI::StreamClosed { reason, .. }) = list.events.get(index) {
-            return CString::new(reason.clone()).unwrap().into_raw();
+            return into_c_string(reason);
         }
     }
     std::ptr::null_mut()
-- 
2.43.0


From fd43b783369a7dcbcf2c176667ac0768d8178172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:25 +0000
Subject: [PATCH 32/43] fix: take plaintext out of the TLS engine between reads

rustls refuses input while more than 16 KB of plaintext are waiting, so a
larger piece of socket data failed with 'received plaintext buffer full'
and its rest was lost.
---
 src/mqtt_client/tls_engine.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index f945343..48c05ea 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -68,9 +68,18 @@ impl TlsMqttEngine {
                     message: format!("TLS process error: {}", e),
                 }
             })?;
+
+            // rustls refuses further input while plaintext is waiting to be
+            // read, so take it out before the next round.
+            self.drain_plaintext()?;
         }
 
         // After processing packets, check if there is any plaintext available
+        self.drain_plaintext()
+    }
+
+    /// Move all decrypted data into `incoming_plaintext`.
+    fn drain_plaintext(&mut self) -> Result<(), MqttClientError> {
         let mut buf = vec![0u8; 4096];
         loop {
             match self.tls_connection.reader().read(&mut buf) {
-- 
2.43.0


From acdc15e0e126273ef658358388bcd44e38287875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:38 +0000
Subject: [PATCH 33/43] fix: send all outgoing MQTT data over TLS

rustls buffers at most 64 KB by default, so the tail of a larger amount of
outgoing data was dropped in the middle of the MQTT stream.
---
 src/mqtt_client/tls_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index 48c05ea..3f2fc30 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -38,11 +38,14 @@ impl TlsMqttEngine {
             })?
             .to_owned();
 
-        let tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
+        let mut tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
             MqttClientError::InternalError {
                 message: format!("Failed to create TLS connection: {}", e),
             }
         })?;
+        // MQTT data handed over must be sent in full: without this rustls
+        // accepts only 64 KB at a time and `write_all` drops the rest.
+        tls_connection.set_buffer_limit(None);
 
         Ok(Self {
             mqtt_engine,
-- 
2.43.0


From b06f556a62c75207315c0094e84d584d44594ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 34/43] fix: report TLS failures to the user of the foreign
 interface

Errors from handle_socket_data, such as a failed certificate check, were
swallowed: the connection just stayed silent.
---
 flowsdk_ffi/src/engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index f8d932f..87d012d 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -345,7 +345,12 @@ impl TlsMqttEngineFFI {
     }
 
     pub fn handle_socket_data(&self, data: Vec<u8>) {
-        self.engine.lock().unwrap().handle_socket_data(&data).ok();
+        let result = self.engine.lock().unwrap().handle_socket_data(&data);
+        if let Err(e) = result {
+            self.events.lock().unwrap().push(MqttEventFFI::Error {
+                message: e.to_string(),
+            });
+        }
     }
 
     pub fn take_socket_data(&self) -> Vec<u8> {
-- 
2.43.0


From 54e0ce8bdc8ed6fa9a8754fa6c9c4c3ce28a0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:23 +0000
Subject: [PATCH 35/43] fix: accepting any host name must not disable
 certificate chain validation (rustls)

danger_accept_invalid_hostnames alone installed a verifier that accepts every
certificate and every handshake signature.
---
 src/mqtt_client/transport/rustls_tls.rs | 80 ++++++++++++++++++++++++-
 1 file changed, 78 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index 4ff2b2a..a8123fa 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -10,8 +10,9 @@ mod imp {
     use tokio::net::TcpStream;
 
     use rustls::client::danger::{ServerCertVerified, ServerCertVerifier};
+    use rustls::client::WebPkiServerVerifier;
     use rustls::pki_types::ServerName;
-    use rustls::{ClientConfig as RustlsClientConfig, RootCertStore};
+    use rustls::{CertificateError, ClientConfig as RustlsClientConfig, RootCertStore};
     use rustls_native_certs;
     use rustls_pki_types::pem::PemObject;
     use rustls_pki_types::{CertificateDer, PrivateKeyDer, UnixTime};
@@ -69,6 +70,23 @@ mod imp {
                 })?;
             }
 
+            // Accepting any hostname must not disable the validation of the chain
+            let chain_verifier =
+                if self.danger_accept_invalid_hostnames && !self.danger_accept_invalid_certs {
+                    Some(
+                        WebPkiServerVerifier::builder(Arc::new(roots.clone()))
+                            .build()
+                            .map_err(|e| {
+                                TransportError::Tls(format!(
+                                    "failed to build certificate verifier: {}",
+                                    e
+                                ))
+                            })?,
+                    )
+                } else {
+                    None
+                };
+
             // Build rustls config with or without client auth
             let mut cfg = if let (Some(chain), Some(key)) = (
                 self.client_cert_chain.clone(),
@@ -105,7 +123,10 @@ mod imp {
             }
 
             // Apply dangerous overrides if requested
-            if self.danger_accept_invalid_certs || self.danger_accept_invalid_hostnames {
+            if let Some(inner) = chain_verifier {
+                cfg.dangerous()
+                    .set_certificate_verifier(Arc::new(AnyNameServerCertVerifier { inner }));
+            } else if self.danger_accept_invalid_certs {
                 cfg.dangerous()
                     .set_certificate_verifier(Arc::new(InsecureServerCertVerifier {
                         skip_name_check: self.danger_accept_invalid_hostnames,
@@ -335,6 +356,61 @@ mod imp {
         }
     }
 
+    /// ⚠️ DANGEROUS: Validates the certificate chain and the handshake signatures as usual,
+    /// but accepts a certificate issued for another host name.
+    #[derive(Debug)]
+    struct AnyNameServerCertVerifier {
+        inner: Arc<WebPkiServerVerifier>,
+    }
+
+    impl ServerCertVerifier for AnyNameServerCertVerifier {
+        fn verify_server_cert(
+            &self,
+            end_entity: &CertificateDer<'_>,
+            intermediates: &[CertificateDer<'_>],
+            server_name: &ServerName<'_>,
+            ocsp_response: &[u8],
+            now: UnixTime,
+        ) -> Result<ServerCertVerified, rustls::Error> {
+            // The name is the last thing checked, after the chain has been found valid
+            match self.inner.verify_server_cert(
+                end_entity,
+                intermediates,
+                server_name,
+                ocsp_response,
+                now,
+            ) {
+                Err(rustls::Error::InvalidCertificate(
+                    CertificateError::NotValidForName
+                    | CertificateError::NotValidForNameContext { .. },
+                )) => Ok(ServerCertVerified::assertion()),
+                other => other,
+            }
+        }
+
+        fn verify_tls12_signature(
+            &self,
+            message: &[u8],
+            cert: &CertificateDer<'_>,
+            dss: &rustls::DigitallySignedStruct,
+        ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
+            self.inner.verify_tls12_signature(message, cert, dss)
+        }
+
+        fn verify_tls13_signature(
+            &self,
+            message: &[u8],
+            cert: &CertificateDer<'_>,
+            dss: &rustls::DigitallySignedStruct,
+        ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
+            self.inner.verify_tls13_signature(message, cert, dss)
+        }
+
+        fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
+            self.inner.supported_verify_schemes()
+        }
+    }
+
     /// Rustls-backed TLS transport for MQTT over TCP
     pub struct RustlsTlsTransport {
         stream: RustlsTlsStream<TcpStream>,
-- 
2.43.0


From 2ba30805ecc66d0d178e7d273d4187a4d3898fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:59 +0000
Subject: [PATCH 36/43] fix: QUIC: present the client certificate also when
 verification is skipped

insecure_skip_verify silently dropped client_cert_chain and client_private_key.
---
 src/mqtt_client/transport/quic.rs | 57 +++++++++++++++----------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index 22a0818..b8da29d 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -382,13 +382,12 @@ mod imp {
             // early-data (0-RTT) settings from QuicConfig, then convert into
             // a quinn ClientConfig.
 
-            // Build rustls config based on insecure_skip_verify flag
-            let mut rustls_cfg = if cfg.insecure_skip_verify {
+            // Choose the server verification based on insecure_skip_verify flag
+            let tls_builder = if cfg.insecure_skip_verify {
                 // ⚠️ DANGEROUS: Skip certificate verification entirely
                 RustlsClientConfig::builder()
                     .dangerous()
                     .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                    .with_no_client_auth()
             } else {
                 // Normal certificate verification with root certificates
                 // Prepare root certificates: prefer custom roots if provided, else load platform roots
@@ -410,37 +409,35 @@ mod imp {
                         })?;
                     }
                 }
+                RustlsClientConfig::builder().with_root_certificates(roots)
+            };
 
-                // Build rustls config; configure client auth if client cert/key provided
-                if let (Some(chain), Some(key)) = (
-                    cfg.client_cert_chain.clone(),
-                    cfg.client_private_key.clone(),
-                ) {
-                    let cert_chain_der: Vec<CertificateDer<'static>> =
-                        chain.into_iter().map(CertificateDer::from).collect();
-                    let parsed_key = PrivateKeyDer::try_from(key).map_err(|e| {
+            // Configure client auth if client cert/key provided
+            let mut rustls_cfg = if let (Some(chain), Some(key)) = (
+                cfg.client_cert_chain.clone(),
+                cfg.client_private_key.clone(),
+            ) {
+                let cert_chain_der: Vec<CertificateDer<'static>> =
+                    chain.into_iter().map(CertificateDer::from).collect();
+                let parsed_key = PrivateKeyDer::try_from(key).map_err(|e| {
+                    TransportError::Quic(format!(
+                        "failed to parse client private key DER for mTLS: {:?}",
+                        e
+                    ))
+                })?;
+                let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
+
+                tls_builder
+                    .with_client_auth_cert(cert_chain_der, key_der)
+                    .map_err(|e| {
                         TransportError::Quic(format!(
-                            "failed to parse client private key DER for mTLS: {:?}",
+                            "failed to build client TLS config with client cert: {}",
                             e
                         ))
-                    })?;
-                    let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
-
-                    RustlsClientConfig::builder()
-                        .with_root_certificates(roots)
-                        .with_client_auth_cert(cert_chain_der, key_der)
-                        .map_err(|e| {
-                            TransportError::Quic(format!(
-                                "failed to build client TLS config with client cert: {}",
-                                e
-                            ))
-                        })?
-                } else {
-                    // No client auth
-                    RustlsClientConfig::builder()
-                        .with_root_certificates(roots)
-                        .with_no_client_auth()
-                }
+                    })?
+            } else {
+                // No client auth
+                tls_builder.with_no_client_auth()
             };
 
             // Apply ALPN protocols if provided
-- 
2.43.0


From 9d858ada0d76079226e388543e86a0582b972226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:11 +0000
Subject: [PATCH 37/43] fix: rustls: system roots are enabled by default, as
 documented

---
 src/mqtt_client/transport/rustls_tls.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index a8123fa..d250c4d 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -21,7 +21,7 @@ mod imp {
     use tokio_rustls::{client::TlsStream as RustlsTlsStream, TlsConnector as RustlsTlsConnector};
 
     /// TLS configuration for Rustls backend
-    #[derive(Clone, Default, Debug)]
+    #[derive(Clone, Debug)]
     pub struct RustlsTlsConfig {
         /// Use system root certificates (platform trust store). Enabled by default.
         pub use_system_roots: bool,
@@ -143,7 +143,6 @@ mod imp {
     }
 
     /// Builder for `RustlsTlsConfig` with ergonomic helpers
-    #[derive(Default)]
     pub struct RustlsTlsConfigBuilder {
         use_system_roots: bool,
         custom_root_certs: Vec<Vec<u8>>,
@@ -155,6 +154,27 @@ mod imp {
         enable_key_log: bool,
     }
 
+    impl Default for RustlsTlsConfig {
+        fn default() -> Self {
+            RustlsTlsConfigBuilder::default().build()
+        }
+    }
+
+    impl Default for RustlsTlsConfigBuilder {
+        fn default() -> Self {
+            Self {
+                use_system_roots: true,
+                custom_root_certs: Vec::new(),
+                client_cert_chain: None,
+                client_private_key: None,
+                danger_accept_invalid_certs: false,
+                danger_accept_invalid_hostnames: false,
+                alpn_protocols: Vec::new(),
+                enable_key_log: false,
+            }
+        }
+    }
+
     impl RustlsTlsConfigBuilder {
         /// Enable/disable loading platform root certificates (default: true)
         pub fn use_system_roots(mut self, enable: bool) -> Self {
-- 
2.43.0


From 4bc6baa67cdb153cfb018dc057fe505ddddd8555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:44 +0000
Subject: [PATCH 38/43] fix: the TLS configurations of MqttClientOptions are
 used for the connection

tls_config and rustls_tls_config were stored and never read, so custom trust
anchors and client certificates had no effect.
---
 src/mqtt_client/tokio_async_client.rs | 28 +++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 1f3ed54..06690ed 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2017,6 +2017,16 @@ impl TokioClientWorker {
         true
     }
 
+    /// Connect with native TLS, as configured in the options
+    #[cfg(feature = "tls")]
+    async fn connect_native_tls(
+        &self,
+        addr: &str,
+    ) -> Result<TlsTransport, crate::mqtt_client::transport::TransportError> {
+        let config = self.engine.options().tls_config.clone();
+        TlsTransport::connect_with_config(addr, &config.unwrap_or_default()).await
+    }
+
     /// Create transport based on peer address scheme
     /// Supports:
     /// - `mqtt://host:port` or `host:port` → TCP transport
@@ -2032,16 +2042,18 @@ impl TokioClientWorker {
                 match self.engine.options().tls_backend {
                     #[cfg(feature = "rustls-tls")]
                     Some(crate::mqtt_client::opts::TlsBackend::Rustls) => {
-                        let mut rustls_cfg =
-                            crate::mqtt_client::transport::RustlsTlsConfig::builder()
-                                .use_system_roots(true);
+                        let mut rustls_cfg = self
+                            .engine
+                            .options()
+                            .rustls_tls_config
+                            .clone()
+                            .unwrap_or_default();
                         if self.config.tls_enable_key_log {
-                            rustls_cfg = rustls_cfg.enable_key_log(true);
+                            rustls_cfg.enable_key_log = true;
                         }
                         let transport =
                             crate::mqtt_client::transport::RustlsTlsTransport::connect_with_config(
-                                addr,
-                                rustls_cfg.build(),
+                                addr, rustls_cfg,
                             )
                             .await
                             .map_err(|e| {
@@ -2056,7 +2068,7 @@ impl TokioClientWorker {
                     }
                     #[cfg(feature = "tls")]
                     Some(crate::mqtt_client::opts::TlsBackend::Native) => {
-                        let transport = TlsTransport::connect(addr).await.map_err(|e| {
+                        let transport = self.connect_native_tls(addr).await.map_err(|e| {
                             MqttClientError::ConnectionLost {
                                 reason: format!("TLS connection failed to {}: {}", peer, e),
                             }
@@ -2084,7 +2096,7 @@ impl TokioClientWorker {
                         // Backward compatibility: default to Native if available
                         #[cfg(feature = "tls")]
                         {
-                            let transport = TlsTransport::connect(addr).await.map_err(|e| {
+                            let transport = self.connect_native_tls(addr).await.map_err(|e| {
                                 MqttClientError::ConnectionLost {
                                     reason: format!("TLS connection failed to {}: {}", peer, e),
                                 }
-- 
2.43.0


From b248aabb021f9251c50992e1ea24091247130694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:47 +0000
Subject: [PATCH 39/43] fix: connecting discards what is left of an older
 connection

---
 src/mqtt_client/engine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index a0f3155..d6e1f6a 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -570,6 +570,13 @@ impl MqttEngine {
             return;
         }
 
+        // CONNECT is the first packet of a new connection: nothing queued for an
+        // older one may precede it, and what was received of an incomplete packet
+        // is not part of what comes now.
+        self.outgoing_buffer.clear();
+        self.stream_retransmissions.clear();
+        self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
+
         // Initialize session if needed
         if self.session.is_none() {
             self.session = Some(ClientSession::new());
-- 
2.43.0


From 310afcc36c85de49d65b110b2b1e44087352f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:11 +0000
Subject: [PATCH 40/43] fix: connect_sync reports success only for an
 established connection

---
 src/mqtt_client/tokio_async_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 06690ed..a0b8b0a 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2326,8 +2326,8 @@ impl TokioClientWorker {
         &mut self,
         response_tx: tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>,
     ) {
-        // Check if already connected or connecting
-        if self.stream.is_some() {
+        // Check if already connected
+        if self.stream.is_some() && self.engine.is_connected() {
             let result = ConnectionResult {
                 reason_code: 0,
                 session_present: false,
-- 
2.43.0


From 5c9e97ab39a57000655d1b3a4985cc255a6660e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:11 +0000
Subject: [PATCH 41/43] fix: a packet that send_packet cannot queue is reported

---
 src/mqtt_client/tokio_async_client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index a0b8b0a..0842d6f 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2011,7 +2011,9 @@ impl TokioClientWorker {
                 self.handle_auth(reason_code, properties).await;
             }
             TokioClientCommand::SendPacket(packet) => {
-                let _ = self.engine.enqueue_packet(packet);
+                if let Err(e) = self.engine.enqueue_packet(packet) {
+                    self.event_handler.on_error(&e).await;
+                }
             }
         }
         true
-- 
2.43.0


From e4ff1101b1dfdfef736b119a34306b184346cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:00 +0000
Subject: [PATCH 42/43] fix: calls waiting for requests of a discarded session
 are failed

---
 src/mqtt_client/engine.rs             |  3 ++-
 src/mqtt_client/tokio_async_client.rs | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index d6e1f6a..26adc33 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1369,7 +1369,8 @@ impl MqttEngine {
         Err(MqttClientError::PacketIdExhausted)
     }
 
-    fn packet_id_in_use(&self, packet_id: u16) -> bool {
+    /// Is the identifier that of a request that was not answered yet?
+    pub(crate) fn packet_id_in_use(&self, packet_id: u16) -> bool {
         self.inflight_queue.contains(packet_id)
             || self.priority_queue.iter().any(|packet| match packet {
                 MqttPacket::Publish5(p) => p.packet_id == Some(packet_id),
diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 0842d6f..8da2a36 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1753,6 +1753,18 @@ impl TokioClientWorker {
         for event in events {
             match event {
                 MqttEvent::Connected(res) => {
+                    if res.reason_code == 0 && !res.session_present {
+                        // The requests discarded with the old session will not be
+                        // answered: fail the calls that wait for them, so that
+                        // they do not get the answer of a later request.
+                        let engine = &self.engine;
+                        self.pending_publishes
+                            .retain(|pid, _| engine.packet_id_in_use(*pid));
+                        self.pending_subscribes_sync
+                            .retain(|pid, _| engine.packet_id_in_use(*pid));
+                        self.pending_unsubscribes_sync
+                            .retain(|pid, _| engine.packet_id_in_use(*pid));
+                    }
                     if let Some(tx) = self.pending_connect.take() {
                         let _ = tx.send(Ok(res.clone()));
                     }
-- 
2.43.0


From 67c2c2cad57bd7e365a4732e62602c0545c58835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:02 +0000
Subject: [PATCH 43/43] fix: a resumed session resends its messages in the
 order they were first sent

---
 src/mqtt_client/inflight.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 7c876ad..d0c55bc 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -24,6 +24,8 @@ pub struct InflightEntry {
     /// stream). Retransmissions are routed back onto this same channel so the QoS
     /// 1/2 handshake never crosses streams.
     pub stream: Option<u64>,
+    /// Position in the order in which the messages were first sent
+    pub sequence: u64,
 }
 
 /// A queue for managing inflight QoS 1 and QoS 2 messages.
@@ -46,6 +48,8 @@ pub struct InflightQueue {
     retransmission_timeout: Duration,
     /// Current number of PUBLISH and PUBREL packets in the queue (for flow control)
     publish_count: usize,
+    /// Position of the next message in the order of sending
+    next_sequence: u64,
 }
 
 impl InflightQueue {
@@ -61,6 +65,7 @@ impl InflightQueue {
             mqtt_version,
             retransmission_timeout,
             publish_count: 0,
+            next_sequence: 0,
         }
     }
 
@@ -131,7 +136,9 @@ impl InflightQueue {
             retry_count: 0,
             qos,
             stream,
+            sequence: self.next_sequence,
         };
+        self.next_sequence += 1;
 
         if let Some(replaced) = self.entries.insert(packet_id, entry) {
             if Self::uses_quota(&replaced.packet) {
@@ -222,8 +229,9 @@ impl InflightQueue {
     /// Get all messages to be re-sent upon reconnection (MQTT 3.1.1 and 5.0 with CleanStart=0)
     pub fn get_all_for_reconnect(&self) -> Vec<MqttPacket> {
         let mut all = self.entries.values().collect::<Vec<_>>();
-        // Sort by retry_count or original sent time if needed, but here we just send
-        all.sort_by_key(|e| e.sent_at);
+        // In the original order: the sent time of retransmitted messages is that of
+        // their last transmission, which messages may share.
+        all.sort_by_key(|e| e.sequence);
         all.into_iter().map(|e| e.packet.clone()).collect()
     }
 
-- 
2.43.0

