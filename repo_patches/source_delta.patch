From 758ac668d75260387cb6b48b09234a0d7efe4ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 01/10] fix: only look at the ignore bit of a packet header

BIP-324 defines the most significant header bit as the ignore bit and has
the receiver ignore the other seven. A decoy with a reserved bit set was
treated as a genuine packet.
---
 protocol/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 410cbbb..34e6d21 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -396,7 +396,7 @@ pub enum PacketType {
 impl PacketType {
     /// Check if header byte has the decoy flag flipped.
     pub fn from_byte(header: &u8) -> Self {
-        if header == &DECOY_BYTE {
+        if header & DECOY_BYTE != 0 {
             PacketType::Decoy
         } else {
             PacketType::Genuine
-- 
2.43.0


From e9de0d21b81cea837e18674cb5928e8b3af6f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 02/10] fix: return CiphertextTooSmall from decrypt_to_vec on
 short input

A ciphertext shorter than the tag underflowed the length calculation:
a panic with overflow checks, PacketTooBig without.
---
 protocol/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 34e6d21..e6ef6b9 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -572,6 +572,7 @@ impl InboundCipher {
         ciphertext: &[u8],
         aad: Option<&[u8]>,
     ) -> Result<(PacketType, std::vec::Vec<u8>), Error> {
+        Self::validate_ciphertext_size(ciphertext.len())?;
         let plaintext_len = Self::decryption_buffer_len(ciphertext.len());
 
         if plaintext_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
-- 
2.43.0


From b9afc629022a6343164293ac600395433f492af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 03/10] fix: count length chunks with 64 bits

The 32-bit chunk counter overflowed after 2^32 packets: a panic with
overflow checks, otherwise the length cipher restarted its nonces and fell
out of step with any peer that follows BIP-324's 8-byte rekey counter.
---
 protocol/src/fschacha20poly1305.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index d7e17a5..a8d6c95 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -144,7 +144,7 @@ impl FSChaCha20Poly1305 {
 pub struct FSChaCha20 {
     key: Key,
     block_counter: u32,
-    chunk_counter: u32,
+    chunk_counter: u64,
 }
 
 impl FSChaCha20 {
@@ -158,14 +158,14 @@ impl FSChaCha20 {
 
     /// Encrypt or decrypt the 3-byte length encodings.
     pub fn crypt(&mut self, chunk: &mut [u8; LENGTH_BYTES as usize]) {
-        let counter_mod = (self.chunk_counter / REKEY_INTERVAL as u32).to_le_bytes();
+        let counter_mod = (self.chunk_counter / REKEY_INTERVAL).to_le_bytes();
         let mut nonce = [0u8; 12];
-        nonce[4..8].copy_from_slice(&counter_mod);
+        nonce[4..12].copy_from_slice(&counter_mod);
         let mut cipher = ChaCha20::new(self.key, Nonce::new(nonce), 0);
         cipher.seek(self.block_counter);
         cipher.apply_keystream(chunk);
         self.block_counter += LENGTH_BYTES;
-        if (self.chunk_counter + 1) % REKEY_INTERVAL as u32 == 0 {
+        if (self.chunk_counter + 1) % REKEY_INTERVAL == 0 {
             let mut key_buffer = [0u8; 32];
             cipher.seek(self.block_counter);
             cipher.apply_keystream(&mut key_buffer);
-- 
2.43.0


From f2d7fec3bf59fc58325e46ba8806bef9bd15fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:52 +0000
Subject: [PATCH 04/10] fix: reject contents which do not fit in the length
 bytes

The length of contents of 2^24 bytes and more was silently truncated to
three bytes, so the peer lost the packet boundaries and the connection.
---
 protocol/src/io.rs  | 11 ++++++++---
 protocol/src/lib.rs | 13 +++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b1face3..b3ecdae 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -564,9 +564,14 @@ where
     ///   * `Ok()`: On successful payload encryption and packet send.
     ///   * `Err(ProtocolError)`: An error that occurred during the encryption or write.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
-        let packet_buffer =
-            self.outbound_cipher
-                .encrypt_to_vec(payload.contents(), payload.packet_type(), None);
+        let packet_len = OutboundCipher::encryption_buffer_len(payload.contents().len());
+        let mut packet_buffer = vec![0u8; packet_len];
+        self.outbound_cipher.encrypt(
+            payload.contents(),
+            &mut packet_buffer,
+            payload.packet_type(),
+            None,
+        )?;
         self.writer.write_all(&packet_buffer)?;
         self.writer.flush()?;
         Ok(())
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index e6ef6b9..6bd693d 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -614,6 +614,7 @@ impl OutboundCipher {
     ///
     /// * `Error::BufferTooSmall` - Buffer does not have enough allocated memory as
     ///   calculated by `encryption_buffer_len()`.
+    /// * `Error::PacketTooBig` - Plaintext length does not fit in the three length bytes.
     pub fn encrypt(
         &mut self,
         plaintext: &[u8],
@@ -629,6 +630,10 @@ impl OutboundCipher {
         }
 
         let plaintext_length = plaintext.len();
+        // The length must fit in the three length bytes.
+        if plaintext_length >> (8 * NUM_LENGTH_BYTES) != 0 {
+            return Err(Error::PacketTooBig);
+        }
         let header_index = NUM_LENGTH_BYTES + NUM_HEADER_BYTES - 1;
         let plaintext_start_index = header_index + 1;
         let plaintext_end_index = plaintext_start_index + plaintext_length;
@@ -671,6 +676,10 @@ impl OutboundCipher {
     /// # Returns
     ///
     /// The complete encrypted packet ready for transmission.
+    ///
+    /// # Panics
+    ///
+    /// If the plaintext length does not fit in the three length bytes.
     #[cfg(feature = "std")]
     pub fn encrypt_to_vec(
         &mut self,
@@ -681,9 +690,9 @@ impl OutboundCipher {
         let packet_len = Self::encryption_buffer_len(plaintext.len());
         let mut ciphertext_buffer = std::vec![0u8; packet_len];
 
-        // This will never fail since we allocate the exact required size
+        // The buffer is the exact required size, so this only fails on an oversized plaintext.
         self.encrypt(plaintext, &mut ciphertext_buffer, packet_type, aad)
-            .expect("encrypt should never fail with correctly sized buffer");
+            .expect("plaintext length should fit in the length bytes");
 
         ciphertext_buffer
     }
-- 
2.43.0


From 140d9c0c965ae29ea559bd740efa1f10e3edd150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:52 +0000
Subject: [PATCH 05/10] fix: check the packet size before the session readers
 allocate

The length of a packet is not authenticated until the packet is, so anyone
on the path could make the session readers allocate 16 MiB buffers. The
handshake already checks the limit for automatic allocation first.
---
 protocol/src/futures.rs | 6 ++++++
 protocol/src/io.rs      | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/protocol/src/futures.rs b/protocol/src/futures.rs
index dd6af62..d7d623f 100644
--- a/protocol/src/futures.rs
+++ b/protocol/src/futures.rs
@@ -418,6 +418,12 @@ where
                     }
 
                     let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(*length_bytes);
+                    // The length is not authenticated yet, check it before allocating.
+                    if InboundCipher::decryption_buffer_len(packet_bytes_len)
+                        > MAX_PACKET_SIZE_FOR_ALLOCATION
+                    {
+                        return Err(Error::PacketTooBig.into());
+                    }
                     self.state = DecryptState::init_reading_payload(packet_bytes_len);
                 }
                 DecryptState::ReadingPayload {
diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b3ecdae..5096580 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -527,6 +527,10 @@ where
         let mut length_bytes = [0u8; NUM_LENGTH_BYTES];
         self.reader.read_exact(&mut length_bytes)?;
         let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(length_bytes);
+        // The length is not authenticated yet, check it before allocating.
+        if InboundCipher::decryption_buffer_len(packet_bytes_len) > MAX_PACKET_SIZE_FOR_ALLOCATION {
+            return Err(Error::PacketTooBig.into());
+        }
 
         // Read packet data.
         let mut packet_bytes = vec![0u8; packet_bytes_len];
-- 
2.43.0


From 47bd27c0725e11abd96fd9ce33f532e00b9d1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:52 +0000
Subject: [PATCH 06/10] fix: retry interrupted reads while looking for the
 garbage terminator

Every other read of the handshake goes through read_exact, which retries
on ErrorKind::Interrupted. This one failed the handshake.
---
 protocol/src/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index 5096580..fc9aa40 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -379,6 +379,7 @@ where
                     Ok(n) => {
                         garbage_buffer.extend_from_slice(&temp[..n]);
                     }
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                     Err(e) => return Err(ProtocolError::from(e)),
                 }
             }
-- 
2.43.0


From fb293e553f483941946fc33c1cc52140c43b00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 07/10] fix: stop the async writer task when its writer is
 dropped

The else branch of select! only runs when every branch is disabled, and
the interval branch never is. The task lived on and sent decoys forever.
---
 traffic/src/futures.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index b3f783f..a1ae30b 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -215,7 +215,12 @@ async fn writer_task<W, R>(
     loop {
         tokio::select! {
             // Handle write commands with padding.
-            Some(cmd) = write_rx.recv() => {
+            cmd = write_rx.recv() => {
+                // Exit if all write_tx senders dropped, don't send decoys forever.
+                let cmd = match cmd {
+                    Some(cmd) => cmd,
+                    None => break,
+                };
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -243,9 +248,6 @@ async fn writer_task<W, R>(
                     let _ = writer.write(&decoy).await;
                 }
             }
-
-            // Exit if all write_tx senders dropped, don't send decoys forever.
-            else => break,
         }
     }
 }
-- 
2.43.0


From 88daff1ef58b7ea366ca61bb104d4f58b77f16ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:11 +0000
Subject: [PATCH 08/10] Add a guarded constructor for ciphers in the middle of
 a session

---
 protocol/src/fschacha20poly1305.rs | 24 ++++++++++++++++++++++++
 protocol/src/lib.rs                | 21 +++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index a8d6c95..cde72c1 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -175,3 +175,27 @@ impl FSChaCha20 {
         self.chunk_counter += 1;
     }
 }
+
+/// Ciphers in the middle of a session, for solver-based checks of packets which no test reaches.
+#[cfg(bip324_verif)]
+impl FSChaCha20Poly1305 {
+    /// Cipher which is about to process message number `index`, in the epoch of `key`.
+    pub fn verif_at(key: [u8; 32], index: u64) -> Self {
+        FSChaCha20Poly1305 {
+            key: Key::new(key),
+            message_counter: index as _,
+        }
+    }
+}
+
+#[cfg(bip324_verif)]
+impl FSChaCha20 {
+    /// Cipher which is about to process chunk number `index`, in the epoch of `key`.
+    pub fn verif_at(key: [u8; 32], index: u64) -> Self {
+        FSChaCha20 {
+            key: Key::new(key),
+            block_counter: LENGTH_BYTES * (index % REKEY_INTERVAL) as u32,
+            chunk_counter: index as _,
+        }
+    }
+}
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 6bd693d..99b4047 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -800,6 +800,27 @@ impl_fill_bytes!(StdRng);
 #[cfg(feature = "std")]
 impl_fill_bytes!(ThreadRng);
 
+/// Ciphers in the middle of a session, for solver-based checks of packets which no test reaches.
+#[cfg(bip324_verif)]
+impl InboundCipher {
+    pub fn verif_at(length_key: [u8; 32], packet_key: [u8; 32], index: u64) -> Self {
+        InboundCipher {
+            length_cipher: FSChaCha20::verif_at(length_key, index),
+            packet_cipher: FSChaCha20Poly1305::verif_at(packet_key, index),
+        }
+    }
+}
+
+#[cfg(bip324_verif)]
+impl OutboundCipher {
+    pub fn verif_at(length_key: [u8; 32], packet_key: [u8; 32], index: u64) -> Self {
+        OutboundCipher {
+            length_cipher: FSChaCha20::verif_at(length_key, index),
+            packet_cipher: FSChaCha20Poly1305::verif_at(packet_key, index),
+        }
+    }
+}
+
 #[cfg(all(test, feature = "std"))]
 mod tests {
 
-- 
2.43.0


From 29db71f6b889457b00bff2aae108fd4e7d474768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:54 +0000
Subject: [PATCH 09/10] fix: report decoys which failed to be written on the
 next write (traffic, blocking)

The decoy thread ignored write errors. Once part of a decoy is lost the
remote can't decrypt anything which follows, yet write() reported success.
---
 traffic/src/io.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/traffic/src/io.rs b/traffic/src/io.rs
index 974cb48..9bd1615 100644
--- a/traffic/src/io.rs
+++ b/traffic/src/io.rs
@@ -7,7 +7,9 @@ use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Mutex};
 use std::thread;
 
-use bip324::io::{Payload, Protocol, ProtocolError, ProtocolReader, ProtocolWriter};
+use bip324::io::{
+    Payload, Protocol, ProtocolError, ProtocolFailureSuggestion, ProtocolReader, ProtocolWriter,
+};
 use bip324::Role;
 use rand::Rng;
 
@@ -19,6 +21,9 @@ use crate::{
 struct WriterState<W, R = rand::rngs::StdRng> {
     writer: ProtocolWriter<W>,
     shaper: TrafficShaper<R>,
+    /// Set once a background decoy failed to be written, the remote can
+    /// no longer decrypt anything which would follow.
+    broken: bool,
 }
 
 /// Traffic-shaped protocol reader half.
@@ -124,6 +129,7 @@ where
         let writer_state = Arc::new(Mutex::new(WriterState {
             writer: protocol_writer,
             shaper,
+            broken: false,
         }));
 
         // Create shutdown flag and spawn decoy thread.
@@ -184,6 +190,15 @@ where
     /// Write a payload with traffic shaping.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
         let mut state = self.writer_state.lock().unwrap();
+        if state.broken {
+            return Err(ProtocolError::Io(
+                std::io::Error::new(
+                    std::io::ErrorKind::BrokenPipe,
+                    "Decoy failed to be written to connection",
+                ),
+                ProtocolFailureSuggestion::Abort,
+            ));
+        }
         if let Some(decoy) = state.shaper.pad(payload, &self.stats) {
             state.writer.write(&decoy)?;
         }
@@ -227,7 +242,11 @@ fn decoy_thread<W, R>(
         };
 
         if let Some(decoy) = state.shaper.decoy(&stats) {
-            let _ = state.writer.write(&decoy);
+            if state.writer.write(&decoy).is_err() {
+                // Part of the decoy may be lost, report it on the next write.
+                state.broken = true;
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From 6803430860dad4f691a6e3ca1e78fc88af050c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 10/10] fix: report packets which failed to be written on the
 next write (traffic, async)

The writer task ignored errors of decoys, and of writes the caller gave up.
Once part of a packet is lost the remote can't decrypt anything which follows,
yet write() reported success.
---
 traffic/src/futures.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index a1ae30b..f253a24 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -212,6 +212,10 @@ async fn writer_task<W, R>(
     let mut decoy_interval =
         tokio::time::interval(Duration::from_millis(DEFAULT_CHECK_INTERVAL_MS));
 
+    // Set once a packet failed to be written, the remote can no longer decrypt anything
+    // which would follow. The caller might not know if it was a decoy, or dropped the write.
+    let mut broken = false;
+
     loop {
         tokio::select! {
             // Handle write commands with padding.
@@ -221,6 +225,18 @@ async fn writer_task<W, R>(
                     Some(cmd) => cmd,
                     None => break,
                 };
+
+                if broken {
+                    let _ = cmd.result_tx.send(Err(ProtocolError::Io(
+                        std::io::Error::new(
+                            std::io::ErrorKind::BrokenPipe,
+                            "Previous packet failed to be written to connection",
+                        ),
+                        ProtocolFailureSuggestion::Abort,
+                    )));
+                    continue;
+                }
+
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -237,15 +253,17 @@ async fn writer_task<W, R>(
                     }
                 }
 
+                broken = matches!(result, Err(ProtocolError::Io(..)));
+
                 // Send result back (ignore if receiver dropped).
                 let _ = cmd.result_tx.send(result);
             }
 
             // Concurrently send decoys.
-            _ = decoy_interval.tick() => {
+            _ = decoy_interval.tick(), if !broken => {
                 if let Some(decoy) = shaper.decoy(&stats) {
-                    // Ignore write errors for decoys - they're best-effort.
-                    let _ = writer.write(&decoy).await;
+                    // Part of the decoy may be lost, report it on the next write.
+                    broken = writer.write(&decoy).await.is_err();
                 }
             }
         }
-- 
2.43.0

