From 48d48246b4bf15d0242241ccef975c4b734cbb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 01/23] fix: read_u8 reports a short buffer instead of
 panicking

---
 src/datatype.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datatype.rs b/src/datatype.rs
index fe9d08b..fab27ff 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -193,6 +193,10 @@ impl RaknetReader {
         }
     }
     pub fn read_u8(&mut self) -> Result<u8> {
+        if self.buf.remaining() < 1 {
+            return Err(RaknetError::ReadPacketBufferError);
+        }
+
         Ok(self.buf.get_u8())
     }
 
-- 
2.43.0


From e162621048894810f3734cb24fdcae279d5bb65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 02/23] fix: read_string rejects invalid UTF-8 instead of
 panicking

---
 src/datatype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index fab27ff..1299fd8 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -281,7 +281,7 @@ impl RaknetReader {
         }
 
         self.read(&mut buf)?;
-        Ok(String::from_utf8(buf.to_vec()).unwrap())
+        String::from_utf8(buf.to_vec()).map_err(|_| RaknetError::ReadPacketBufferError)
     }
 
     pub fn read_magic(&mut self) -> Result<bool> {
-- 
2.43.0


From a87de4e7c4ecf295ae1e296b6a5037b07cd3ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:39 +0000
Subject: [PATCH 03/23] fix: a truncated or malformed frame set is a parse
 error, not a panic

---
 src/arq.rs | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 026cbbf..2e4b2a7 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -105,37 +105,37 @@ impl FrameSetPacket {
             data: vec![],
         };
 
-        ret.id = reader.read_u8().unwrap();
-        ret.sequence_number = reader.read_u24(Endian::Little).unwrap();
+        ret.id = reader.read_u8()?;
+        ret.sequence_number = reader.read_u24(Endian::Little)?;
 
         //Top 3 bits are reliability type
         //224 = 1110 0000(b)
-        ret.flags = reader.read_u8().unwrap();
+        ret.flags = reader.read_u8()?;
 
-        ret.length_in_bytes = reader.read_u16(Endian::Big).unwrap() / 8;
+        ret.length_in_bytes = reader.read_u16(Endian::Big)? / 8;
 
         if ret.is_reliable()? {
-            ret.reliable_frame_index = reader.read_u24(Endian::Little).unwrap();
+            ret.reliable_frame_index = reader.read_u24(Endian::Little)?;
         }
 
         if ret.is_sequenced()? {
-            ret.sequenced_frame_index = reader.read_u24(Endian::Little).unwrap();
+            ret.sequenced_frame_index = reader.read_u24(Endian::Little)?;
         }
         if ret.is_ordered()? {
-            ret.ordered_frame_index = reader.read_u24(Endian::Little).unwrap();
-            ret.order_channel = reader.read_u8().unwrap();
+            ret.ordered_frame_index = reader.read_u24(Endian::Little)?;
+            ret.order_channel = reader.read_u8()?;
         }
 
         //fourth bit is 1 when the frame is fragmented and part of a compound.
         //flags and 16 [0001 0000(b)] == if fragmented
         if (ret.flags & 16) != 0 {
-            ret.compound_size = reader.read_u32(Endian::Big).unwrap();
-            ret.compound_id = reader.read_u16(Endian::Big).unwrap();
-            ret.fragment_index = reader.read_u32(Endian::Big).unwrap();
+            ret.compound_size = reader.read_u32(Endian::Big)?;
+            ret.compound_id = reader.read_u16(Endian::Big)?;
+            ret.fragment_index = reader.read_u32(Endian::Big)?;
         }
 
         let mut buf = vec![0u8; ret.length_in_bytes as usize].into_boxed_slice();
-        reader.read(&mut buf).unwrap();
+        reader.read(&mut buf)?;
         ret.data.append(&mut buf.to_vec());
 
         Ok((ret, reader.pos() == buf.len() as u64))
@@ -277,8 +277,8 @@ impl FrameVec {
 
         let mut reader = RaknetReader::new(buf);
 
-        ret.id = reader.read_u8().unwrap();
-        ret.sequence_number = reader.read_u24(Endian::Little).unwrap();
+        ret.id = reader.read_u8()?;
+        ret.sequence_number = reader.read_u24(Endian::Little)?;
 
         while reader.pos() < size.try_into().unwrap() {
             let mut frame = FrameSetPacket {
@@ -298,32 +298,32 @@ impl FrameVec {
 
             //Top 3 bits are reliability type
             //224 = 1110 0000(b)
-            frame.flags = reader.read_u8().unwrap();
+            frame.flags = reader.read_u8()?;
 
-            frame.length_in_bytes = reader.read_u16(Endian::Big).unwrap() / 8;
+            frame.length_in_bytes = reader.read_u16(Endian::Big)? / 8;
 
             if frame.is_reliable()? {
-                frame.reliable_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.reliable_frame_index = reader.read_u24(Endian::Little)?;
             }
 
             if frame.is_sequenced()? {
-                frame.sequenced_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.sequenced_frame_index = reader.read_u24(Endian::Little)?;
             }
             if frame.is_ordered()? {
-                frame.ordered_frame_index = reader.read_u24(Endian::Little).unwrap();
-                frame.order_channel = reader.read_u8().unwrap();
+                frame.ordered_frame_index = reader.read_u24(Endian::Little)?;
+                frame.order_channel = reader.read_u8()?;
             }
 
             //fourth bit is 1 when the frame is fragmented and part of a compound.
             //flags and 16 [0001 0000(b)] == if fragmented
             if (frame.flags & 16) != 0 {
-                frame.compound_size = reader.read_u32(Endian::Big).unwrap();
-                frame.compound_id = reader.read_u16(Endian::Big).unwrap();
-                frame.fragment_index = reader.read_u32(Endian::Big).unwrap();
+                frame.compound_size = reader.read_u32(Endian::Big)?;
+                frame.compound_id = reader.read_u16(Endian::Big)?;
+                frame.fragment_index = reader.read_u32(Endian::Big)?;
             }
 
             let mut buf = vec![0u8; frame.length_in_bytes as usize].into_boxed_slice();
-            reader.read(&mut buf).unwrap();
+            reader.read(&mut buf)?;
             frame.data.append(&mut buf.to_vec());
             ret.frames.push(frame);
         }
-- 
2.43.0


From d1feb6072561d8659647f4198c0e425ad0b34841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 04/23] fix: an empty or unknown datagram must not kill the
 receiver task

---
 src/socket.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index ac90cf9..10f19aa 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -462,7 +462,12 @@ impl RaknetSocket {
 
                 last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
 
-                if PacketID::from(buf[0]).unwrap() == PacketID::Disconnect {
+                if buf.is_empty() {
+                    raknet_log_debug!("empty datagram ignored");
+                    continue;
+                }
+
+                if buf[0] == PacketID::Disconnect.to_u8() {
                     connected.close();
                     break;
                 }
-- 
2.43.0


From d71e115ff20f1bf32849be2678cb3073bdfe0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 05/23] fix: a malformed ack or nack must not kill the receiver
 task

---
 src/socket.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 10f19aa..92116c7 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -474,8 +474,15 @@ impl RaknetSocket {
 
                 if buf[0] == PacketID::Ack.to_u8() {
                     //handle ack
+                    let ack = match read_packet_ack(&buf) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("malformed ack ignored : {:?}", e);
+                            continue;
+                        }
+                    };
+
                     let mut sendq = sendq.write().await;
-                    let ack = read_packet_ack(&buf).unwrap();
                     for i in 0..ack.record_count {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
@@ -490,7 +497,13 @@ impl RaknetSocket {
 
                 if buf[0] == PacketID::Nack.to_u8() {
                     //handle nack
-                    let nack = read_packet_nack(&buf).unwrap();
+                    let nack = match read_packet_nack(&buf) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("malformed nack ignored : {:?}", e);
+                            continue;
+                        }
+                    };
 
                     let mut sendq = sendq.write().await;
 
-- 
2.43.0


From 235715a208caeb5d2e925fd42052c78ddc08c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 06/23] fix: a malformed frame set must not kill the receiver
 task

---
 src/socket.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 92116c7..322d81a 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -524,12 +524,21 @@ impl RaknetSocket {
                 if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                     && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                 {
-                    let frames = FrameVec::new(buf.clone()).unwrap();
+                    let frames = match FrameVec::new(buf.clone()) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("malformed frame set ignored : {:?}", e);
+                            continue;
+                        }
+                    };
 
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        recvq.insert(frame).unwrap();
+                        if let Err(e) = recvq.insert(frame) {
+                            raknet_log_debug!("malformed frame ignored : {:?}", e);
+                            continue;
+                        }
 
                         for f in recvq.flush(&peer_addr) {
                             if !RaknetSocket::handle(
-- 
2.43.0


From 7316d0f3cb41583f80a87f61bd611899f91f1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 07/23] fix: a malformed frame body must not kill the receiver
 task

---
 src/socket.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 322d81a..bff156d 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -83,6 +83,10 @@ impl RaknetSocket {
         user_data_sender: &Sender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
+        if frame.data.is_empty() {
+            return Err(RaknetError::PacketHeaderError);
+        }
+
         match PacketID::from(frame.data[0])? {
             PacketID::ConnectionRequest => {
                 let packet = read_packet_connection_request(frame.data.as_slice())?;
@@ -437,7 +441,7 @@ impl RaknetSocket {
                 if connected.is_closed() {
                     let mut recvq = recvq.lock().await;
                     for f in recvq.flush(&peer_addr) {
-                        RaknetSocket::handle(
+                        if let Err(e) = RaknetSocket::handle(
                             &f,
                             &peer_addr,
                             &local_addr,
@@ -446,7 +450,9 @@ impl RaknetSocket {
                             &incomming_notify,
                         )
                         .await
-                        .unwrap();
+                        {
+                            raknet_log_debug!("malformed frame ignored : {:?}", e);
+                        }
                     }
                     break;
                 }
@@ -541,7 +547,7 @@ impl RaknetSocket {
                         }
 
                         for f in recvq.flush(&peer_addr) {
-                            if !RaknetSocket::handle(
+                            match RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
                                 &local_addr,
@@ -550,11 +556,16 @@ impl RaknetSocket {
                                 &incomming_notify,
                             )
                             .await
-                            .unwrap()
                             {
-                                raknet_log_info!("handle over");
-                                connected.close();
-                                is_break = true;
+                                Ok(true) => {}
+                                Ok(false) => {
+                                    raknet_log_info!("handle over");
+                                    connected.close();
+                                    is_break = true;
+                                }
+                                Err(e) => {
+                                    raknet_log_debug!("malformed frame ignored : {:?}", e);
+                                }
                             };
                         }
 
-- 
2.43.0


From 21043ddea038fdf8181b17279a9ec84515294e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 08/23] fix: connect reads only the bytes of the datagram it
 received

---
 src/socket.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index bff156d..3926f01 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -250,9 +250,14 @@ impl RaknetSocket {
             remote_addr = src;
             reply1_size = size;
 
+            if size == 0 {
+                raknet_log_debug!("empty datagram ignored");
+                continue;
+            }
+
             if reply1_buf[0] != PacketID::OpenConnectionReply1.to_u8() {
                 if reply1_buf[0] == PacketID::IncompatibleProtocolVersion.to_u8() {
-                    let _packet = match read_packet_incompatible_protocol_version(&buf[..size]) {
+                    let _packet = match read_packet_incompatible_protocol_version(&reply1_buf[..size]) {
                         Ok(p) => p,
                         Err(_) => return Err(RaknetError::NotSupportVersion),
                     };
-- 
2.43.0


From 91cec59aae4b2fc47335b24c8a8e894186671fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 09/23] fix: ping parses only the received bytes and measures
 latency on one clock

---
 src/socket.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 3926f01..137e100 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -806,7 +806,7 @@ impl RaknetSocket {
 
             let mut buf = [0u8; 1024];
 
-            match match tokio::time::timeout(
+            let (size, _) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
                 s.recv_from(&mut buf),
             )
@@ -821,8 +821,8 @@ impl RaknetSocket {
                 Err(_) => return Err(RaknetError::SocketError),
             };
 
-            if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((p.time - packet.time, p.motd));
+            if let Ok(p) = read_packet_pong(&buf[..size]) {
+                return Ok((cur_timestamp_millis() - packet.time, p.motd));
             };
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
-- 
2.43.0


From d97df04803aad63964839e4dd3d7a0c57f75e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 10/23] fix: send racing with close reports ConnectionClosed
 instead of panicking

---
 src/socket.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 137e100..ab92c6b 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -859,7 +859,7 @@ impl RaknetSocket {
         let sender = self.sender.clone();
         for f in sendq.flush(cur_timestamp_millis(), &self.peer_addr) {
             let data = f.serialize().unwrap();
-            sender
+            if sender
                 .send((
                     data,
                     self.peer_addr,
@@ -867,7 +867,10 @@ impl RaknetSocket {
                     self.loss_rate.load(Ordering::Relaxed),
                 ))
                 .await
-                .unwrap();
+                .is_err()
+            {
+                return Err(RaknetError::ConnectionClosed);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From c22134b638668057d0860c38871e997c9c520b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:52 +0000
Subject: [PATCH 11/23] fix: ignore fragments that announce a compound of zero
 fragments

---
 src/fragment.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fragment.rs b/src/fragment.rs
index 64baea3..770d027 100644
--- a/src/fragment.rs
+++ b/src/fragment.rs
@@ -68,6 +68,10 @@ impl FragmentQ {
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) {
+        if frame.compound_size == 0 {
+            return;
+        }
+
         if self.fragments.contains_key(&frame.compound_id) {
             self.fragments
                 .get_mut(&frame.compound_id)
-- 
2.43.0


From 6d55af95c7f8295e1c65408931843b8be32a5c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:52 +0000
Subject: [PATCH 12/23] fix: compound ids wrap around instead of overflowing

---
 src/arq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 2e4b2a7..a45334c 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -684,7 +684,7 @@ impl SendQ {
                         self.packets.push(frame);
                         self.reliable_frame_index += 1;
                     }
-                    self.compound_id += 1;
+                    self.compound_id = self.compound_id.wrapping_add(1);
                     self.ordered_frame_index += 1;
                 }
             }
-- 
2.43.0


From 3446e423b6dea10b66d617b7c98ffccf08fcd680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:52 +0000
Subject: [PATCH 13/23] fix: bound the mtu negotiated by the peer

---
 src/arq.rs   | 3 ++-
 src/utils.rs | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index a45334c..62a7f19 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -597,7 +597,8 @@ impl SendQ {
 
     pub fn new(mtu: u16) -> Self {
         Self {
-            mtu,
+            // the mtu comes from the peer, a fragment must neither be empty nor exceed a datagram
+            mtu: mtu.clamp(RAKNET_MIN_MTU, RAKNET_MAX_MTU),
             ack_sequence_number: 0,
             sequence_number: 0,
             packets: vec![],
diff --git a/src/utils.rs b/src/utils.rs
index 07d349e..bdafd6b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,6 +1,8 @@
 pub const RAKNET_PROTOCOL_VERSION: u8 = 10;
 pub const RAKNET_PROTOCOL_VERSION_LIST: [u8; 2] = [10, 11];
 //the MTU is minecraft bedrock 1.18.2 give me
+pub const RAKNET_MIN_MTU: u16 = 400;
+pub const RAKNET_MAX_MTU: u16 = 1500;
 pub const RAKNET_CLIENT_MTU: u16 = 1400;
 
 pub const RECEIVE_TIMEOUT: i64 = 60000;
-- 
2.43.0


From 9d8d58e56b7a2dcb3f09a53dc11e42e0fb42af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 14/23] fix: the listener ignores empty datagrams

---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 4ac5256..21acae8 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -265,6 +265,11 @@ impl RaknetListener {
                     }
                 }
 
+                if size == 0 {
+                    raknet_log_debug!("empty datagram ignored");
+                    continue;
+                }
+
                 let cur_status = match PacketID::from(buf[0]) {
                     Ok(p) => p,
                     Err(e) => {
-- 
2.43.0


From bedab2cfdbf35b37db75a0c56dd7bedf91df4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 15/23] fix: a session that is gone must not kill the listener,
 nor a busy one block it with the session table locked

---
 src/server.rs | 53 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 21acae8..3acb5a5 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -151,10 +151,10 @@ impl RaknetListener {
             let mut sessions = sessions.lock().await;
 
             for i in sessions.iter() {
+                // never wait for a session here, its receiver may itself be waiting for the user
                 if i.1
                      .1
-                    .send(vec![PacketID::Disconnect.to_u8()])
-                    .await
+                    .try_send(vec![PacketID::Disconnect.to_u8()])
                     .is_ok()
                 {}
 
@@ -450,26 +450,47 @@ impl RaknetListener {
 
                         raknet_log_debug!("accept connection : {}", addr);
                         sessions.insert(addr, (cur_timestamp_millis(), sender));
-                        let _ = connection_sender.send(s).await;
+                        std::mem::drop(sessions);
+
+                        tokio::select! {
+                            _ = connection_sender.send(s) => {},
+                            _ = close_notify.acquire() => {
+                                raknet_log_debug!("listen close notified");
+                                break;
+                            }
+                        }
                     }
                     PacketID::Disconnect => {
-                        let mut sessions = sessions.lock().await;
-                        if sessions.contains_key(&addr) {
-                            sessions[&addr].1.send(buf[..size].to_vec()).await.unwrap();
-                            sessions.remove(&addr);
+                        let session = sessions.lock().await.remove(&addr);
+                        if let Some((_, sender)) = session {
+                            tokio::select! {
+                                _ = sender.send(buf[..size].to_vec()) => {},
+                                _ = close_notify.acquire() => {
+                                    raknet_log_debug!("listen close notified");
+                                    break;
+                                }
+                            }
                         }
                     }
                     _ => {
-                        let mut sessions = sessions.lock().await;
-                        if sessions.contains_key(&addr) {
-                            match sessions[&addr].1.send(buf[..size].to_vec()).await {
-                                Ok(_) => {}
-                                Err(_) => {
-                                    sessions.remove(&addr);
-                                    continue;
+                        let sender = match sessions.lock().await.get_mut(&addr) {
+                            Some(session) => {
+                                session.0 = cur_timestamp_millis();
+                                session.1.clone()
+                            }
+                            None => continue,
+                        };
+
+                        tokio::select! {
+                            r = sender.send(buf[..size].to_vec()) => {
+                                if r.is_err() {
+                                    sessions.lock().await.remove(&addr);
                                 }
-                            };
-                            sessions.get_mut(&addr).unwrap().0 = cur_timestamp_millis();
+                            },
+                            _ = close_notify.acquire() => {
+                                raknet_log_debug!("listen close notified");
+                                break;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 4efe859db2c2a45d21cfe62014bfba3fd911d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 16/23] fix: closing a listener that never listened returns

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 3acb5a5..d5597ce 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -594,7 +594,11 @@ impl RaknetListener {
             return Ok(());
         }
         self.close_notifier.close();
-        self.all_session_closed_notifier.notified().await;
+
+        // only a listening listener has a session collector to wait for
+        if self.listened {
+            self.all_session_closed_notifier.notified().await;
+        }
 
         // wait all thread exit and drop socket pointer.
         while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
-- 
2.43.0


From 094af6ccbaada1b7e5cc4d7413d4b8580a854d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 17/23] fix: local_addr of a closed listener is an error
 instead of a panic

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index d5597ce..f28164c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -579,7 +579,10 @@ impl RaknetListener {
     /// assert_eq!(socket.local_addr().unwrap().ip(), IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)));
     /// ```
     pub fn local_addr(&self) -> Result<SocketAddr> {
-        Ok(self.socket.as_ref().unwrap().local_addr().unwrap())
+        match &self.socket {
+            Some(s) => s.local_addr().map_err(|_| RaknetError::SocketError),
+            None => Err(RaknetError::NotListen),
+        }
     }
 
     /// Close Raknet Server and all connections.
-- 
2.43.0


From d13d2589081ee1b94a4e96e7acdbe40ac2e70aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 18/23] fix: the drop watcher must not consume its own start
 notification

---
 src/server.rs | 4 +---
 src/socket.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index f28164c..f368522 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -638,8 +638,8 @@ impl RaknetListener {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("listener drop watcher start");
-            drop_notifier.notify_one();
 
+            // a drop that happens before this point has left a permit
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -651,8 +651,6 @@ impl RaknetListener {
 
             raknet_log_debug!("listener drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
diff --git a/src/socket.rs b/src/socket.rs
index ab92c6b..a055c65 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -966,8 +966,8 @@ impl RaknetSocket {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("socket drop watcher start");
-            drop_notifier.notify_one();
 
+            // a drop that happens before this point has left a permit
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -979,8 +979,6 @@ impl RaknetSocket {
 
             raknet_log_debug!("socket drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
-- 
2.43.0


From dc1b518283848067f56ae060e2428e61b4a02bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 19/23] fix: connect returns when the connection closes during
 the handshake

---
 src/socket.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index a055c65..ff2f017 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -420,7 +420,13 @@ impl RaknetSocket {
         ret.drop_watcher().await;
 
         raknet_log_debug!("wait incomming notify");
-        ret.incomming_notifier.notified().await;
+        tokio::select! {
+            _ = ret.incomming_notifier.notified() => {},
+            _ = ret.close_notifier.acquire() => {
+                raknet_log_debug!("closed before connected");
+                return Err(RaknetError::ConnectionClosed);
+            }
+        }
 
         Ok(ret)
     }
-- 
2.43.0


From 9c27059b0c240ed1dd8139213f10029e44b848e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:24 +0000
Subject: [PATCH 20/23] fix: encode and decode IPv6 addresses in the same
 layout

---
 src/datatype.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index 1299fd8..278bc2e 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -154,6 +154,7 @@ impl RaknetWriter {
             self.write_u16(address.port(), Endian::Big)?;
             Ok(())
         } else {
+            self.write_u8(0x6)?;
             self.write_i16(23, Endian::Little)?;
             self.write_u16(address.port(), Endian::Big)?;
             self.write_i32(0, Endian::Big)?;
@@ -315,7 +316,7 @@ impl RaknetReader {
             let port = self.read_u16(Endian::Big)?;
             Ok(SocketAddr::new(IpAddr::V4(ip), port))
         } else {
-            if self.buf.remaining() < 44 {
+            if self.buf.remaining() < 28 {
                 return Err(RaknetError::ReadPacketBufferError);
             }
 
-- 
2.43.0


From 1f708116377a6072c5052ae9d4e28e77862498d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:24 +0000
Subject: [PATCH 21/23] fix: a client accepts datagrams from its server only

---
 src/socket.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index ff2f017..83f9e4e 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -247,6 +247,11 @@ impl RaknetSocket {
                 }
             };
 
+            if src != *addr {
+                raknet_log_debug!("datagram of another peer ignored");
+                continue;
+            }
+
             remote_addr = src;
             reply1_size = size;
 
@@ -297,7 +302,7 @@ impl RaknetSocket {
             };
 
             let mut buf = [0u8; 2048];
-            let (size, _) =
+            let (size, src) =
                 match match timeout(std::time::Duration::from_secs(2), s.recv_from(&mut buf)).await
                 {
                     Ok(p) => p,
@@ -313,6 +318,11 @@ impl RaknetSocket {
                     }
                 };
 
+            if src != *addr {
+                raknet_log_debug!("datagram of another peer ignored");
+                continue;
+            }
+
             if buf[0] == PacketID::OpenConnectionReply1.to_u8() {
                 raknet_log_debug!("repeat receive reply1");
                 continue;
@@ -361,7 +371,7 @@ impl RaknetSocket {
                 if connected_s.is_closed() {
                     break;
                 }
-                let (size, _) = match match timeout(
+                let (size, src) = match match timeout(
                     std::time::Duration::from_secs(10),
                     recv_s.recv_from(&mut buf),
                 )
@@ -384,6 +394,11 @@ impl RaknetSocket {
                     }
                 };
 
+                if src != peer_addr {
+                    raknet_log_debug!("datagram of another peer ignored");
+                    continue;
+                }
+
                 match sender.send(buf[..size].to_vec()).await {
                     Ok(_) => {}
                     Err(e) => {
@@ -812,7 +827,7 @@ impl RaknetSocket {
 
             let mut buf = [0u8; 1024];
 
-            let (size, _) = match match tokio::time::timeout(
+            let (size, src) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
                 s.recv_from(&mut buf),
             )
@@ -827,6 +842,11 @@ impl RaknetSocket {
                 Err(_) => return Err(RaknetError::SocketError),
             };
 
+            if src != *addr {
+                raknet_log_debug!("datagram of another peer ignored");
+                continue;
+            }
+
             if let Ok(p) = read_packet_pong(&buf[..size]) {
                 return Ok((cur_timestamp_millis() - packet.time, p.motd));
             };
-- 
2.43.0


From f581516196a0cd8a545855473147b97cfe257543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:24 +0000
Subject: [PATCH 22/23] fix: the receive queue is not locked while frames are
 delivered to the user

---
 src/socket.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 83f9e4e..fa940aa 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -465,8 +465,8 @@ impl RaknetSocket {
         tokio::spawn(async move {
             loop {
                 if connected.is_closed() {
-                    let mut recvq = recvq.lock().await;
-                    for f in recvq.flush(&peer_addr) {
+                    let frames = recvq.lock().await.flush(&peer_addr);
+                    for f in frames {
                         if let Err(e) = RaknetSocket::handle(
                             &f,
                             &peer_addr,
@@ -564,15 +564,18 @@ impl RaknetSocket {
                         }
                     };
 
-                    let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        if let Err(e) = recvq.insert(frame) {
-                            raknet_log_debug!("malformed frame ignored : {:?}", e);
-                            continue;
-                        }
+                        let ready = {
+                            let mut recvq = recvq.lock().await;
+                            if let Err(e) = recvq.insert(frame) {
+                                raknet_log_debug!("malformed frame ignored : {:?}", e);
+                                continue;
+                            }
+                            recvq.flush(&peer_addr)
+                        };
 
-                        for f in recvq.flush(&peer_addr) {
+                        for f in ready {
                             match RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
@@ -601,7 +604,7 @@ impl RaknetSocket {
                     }
 
                     //flush ack
-                    let acks = recvq.get_ack();
+                    let acks = recvq.lock().await.get_ack();
 
                     if !acks.is_empty() {
                         let packet = Ack {
-- 
2.43.0


From 631a7923412b8d677ab7c4448f5b6bfcd9d17920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:24 +0000
Subject: [PATCH 23/23] fix: a motd set after listen is the one the listener
 advertises

---
 src/server.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index f368522..92532e0 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -17,7 +17,7 @@ type SessionSender = (i64, Sender<Vec<u8>>);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
-    motd: String,
+    motd: Arc<std::sync::RwLock<String>>,
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
@@ -30,6 +30,10 @@ pub struct RaknetListener {
     version_map: Arc<Mutex<HashMap<String, u8>>>,
 }
 
+fn current_motd(motd: &std::sync::RwLock<String>) -> String {
+    motd.read().unwrap_or_else(|e| e.into_inner()).clone()
+}
+
 impl RaknetListener {
     /// Creates a new RaknetListener which will be bound to the specified address.
     ///
@@ -50,7 +54,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -88,7 +92,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -208,7 +212,7 @@ impl RaknetListener {
             return;
         }
 
-        if self.motd.is_empty() {
+        if self.get_motd().await.is_empty() {
             self.set_motd(
                 SERVER_NAME,
                 MAX_CONNECTION,
@@ -224,7 +228,7 @@ impl RaknetListener {
         let guid = self.guid;
         let sessions = self.sessions.clone();
         let connection_sender = self.connection_sender.clone();
-        let motd = self.get_motd().await;
+        let motd = self.motd.clone();
 
         self.listened = true;
 
@@ -242,7 +246,6 @@ impl RaknetListener {
             raknet_log_debug!("start listen worker : {}", local_addr);
 
             loop {
-                let motd = motd.clone();
                 let size: usize;
                 let addr: SocketAddr;
 
@@ -289,7 +292,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: current_motd(&motd),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -315,7 +318,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: current_motd(&motd),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -548,7 +551,7 @@ impl RaknetListener {
         game_type: &str,
         port: u16,
     ) {
-        self.motd = format!(
+        let motd = format!(
             "MCPE;{};{};{};0;{};{};Bedrock level;{};1;{};",
             server_name,
             mc_protocol_version,
@@ -558,6 +561,7 @@ impl RaknetListener {
             game_type,
             port
         );
+        *self.motd.write().unwrap_or_else(|e| e.into_inner()) = motd;
     }
 
     /// Get the current motd, this motd will be provided to the client in the unconnected pong.
@@ -568,7 +572,7 @@ impl RaknetListener {
     /// let motd = listener.get_motd().await;
     /// ```
     pub async fn get_motd(&self) -> String {
-        self.motd.clone()
+        current_motd(&self.motd)
     }
 
     /// Returns the socket address of the local half of this Raknet connection.
@@ -623,7 +627,7 @@ impl RaknetListener {
     /// socket.set_full_motd("motd").await;
     /// ```
     pub fn set_full_motd(&mut self, motd: String) -> Result<()> {
-        self.motd = motd;
+        *self.motd.write().unwrap_or_else(|e| e.into_inner()) = motd;
         Ok(())
     }
 
-- 
2.43.0

