From b57f12ba6fcab9b2f25519ce36f2ba3d2a7a4865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 01/14] fix: decode an owned BulkWrite as BulkWrite, not as
 BulkRead

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 19f18d3..a18d8e5 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -373,7 +373,7 @@ impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<alloc::vec::Vec<u8>> {
 			Instructions::BulkRead { parameters } => Instructions::BulkRead {
 				parameters: parameters.to_owned(),
 			},
-			Instructions::BulkWrite { parameters } => Instructions::BulkRead {
+			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
 				parameters: parameters.to_owned(),
 			},
 			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
-- 
2.43.0


From 6a0eed9286b40eb91a3bd7946f03855a10aadcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 02/14] fix: reserve room for the encoded value in reg_write

reg_write() always declared a single data byte, so it failed for every type larger than a byte.
---
 src/instructions/reg_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/reg_write.rs b/src/instructions/reg_write.rs
index f6c4b09..97faa70 100644
--- a/src/instructions/reg_write.rs
+++ b/src/instructions/reg_write.rs
@@ -36,7 +36,7 @@ where
 	/// You may specify [`crate::instructions::packet_id::BROADCAST`] as motor ID.
 	/// If you do, none of the devices will reply with a response, and this function will not wait for any.
 	pub fn reg_write<T: Data>(&mut self, motor_id: u8, address: u16, value: &T) -> Result<Response<()>, TransferError<SerialPort::Error>> {
-		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + 1, |buffer| {
+		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + usize::from(T::ENCODED_SIZE), |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			value.encode(&mut buffer[2..])
 		})?;
-- 
2.43.0


From a051188ad1c6d46926a8d4184b3a49b22cc2b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 03/14] fix: use the encoded size of the value type in
 sync_write

sync_write() always used a data length of 1 byte per motor.
---
 src/instructions/sync_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/sync_write.rs b/src/instructions/sync_write.rs
index 6fe40c2..8f6a967 100644
--- a/src/instructions/sync_write.rs
+++ b/src/instructions/sync_write.rs
@@ -80,7 +80,7 @@ where
 		T: crate::bus::Data,
 	{
 		let data = data.into_iter();
-		let count = core::mem::size_of::<u8>();
+		let count = usize::from(T::ENCODED_SIZE);
 		let motors = data.len();
 		let stride = 1 + count;
 		let parameter_count = 4 + motors * stride;
-- 
2.43.0


From 62a6c9f4e32070b293d88944a5ee4a9a3d72da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 04/14] fix: send option 0x02 for the clear error instruction

Option 0x01 is 'clear multi-turn position', also according to the decoder in device.rs.
---
 src/instructions/clear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/clear.rs b/src/instructions/clear.rs
index 05201fe..fb22ca1 100644
--- a/src/instructions/clear.rs
+++ b/src/instructions/clear.rs
@@ -7,7 +7,7 @@ const CLEAR_REVOLUTION_COUNT: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
 /// The parameters for the CLEAR command to clear the error state.
 ///
 /// This is only supported on some motors.
-const CLEAR_ERROR: [u8; 5] = [0x01, 0x45, 0x52, 0x43, 0x4C];
+const CLEAR_ERROR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
 
 impl<SerialPort, Buffer> Client<SerialPort, Buffer>
 where
-- 
2.43.0


From d870bc700652973f0502a9aecb0487f8f556fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 05/14] fix: recognize the stuffing pattern after extra 0xFF
 bytes

The pattern matching started over after a mismatch, so FF FF FF FD was neither stuffed nor unstuffed.
The stuffing itself did see it though, so it could apply the stuffing in the wrong place.
---
 src/bus/bytestuff.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/bus/bytestuff.rs b/src/bus/bytestuff.rs
index 3033ff3..57af663 100644
--- a/src/bus/bytestuff.rs
+++ b/src/bus/bytestuff.rs
@@ -7,6 +7,22 @@ use crate::error::BufferTooSmallError;
 /// The unstuffed pattern is this with the last byte removed.
 pub const PATTERN: [u8; 4] = [0xFF, 0xFF, 0xFD, 0xFD];
 
+/// Get the number of leading bytes of the pattern that are matched after another byte.
+///
+/// The `state` is the number of bytes that were matched before this byte, and must be less than `PATTERN.len()`.
+fn match_pattern(state: usize, byte: u8) -> usize {
+	if byte == PATTERN[state] {
+		state + 1
+	} else if state == 2 && byte == PATTERN[0] {
+		// The last two bytes of `FF FF FF` still match the start of the pattern.
+		2
+	} else if byte == PATTERN[0] {
+		1
+	} else {
+		0
+	}
+}
+
 /// Remove bit-stuffing in-place.
 ///
 /// All patterns of `[0xFF, 0xFF, 0xFD, 0xFD]` will be replaced with `[0xFF, 0xFF, 0xFD]`.
@@ -16,11 +32,7 @@ pub fn unstuff_inplace(data: &mut [u8]) -> usize {
 	let mut state = 0;
 
 	for i in 0..data.len() {
-		if data[i] == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = match_pattern(state, data[i]);
 		if state == 4 {
 			state = 0;
 			deleted += 1;
@@ -37,11 +49,7 @@ pub fn stuffing_required(data: &[u8]) -> usize {
 	let mut state = 0;
 	let mut count = 0;
 	for &byte in data {
-		if byte == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = match_pattern(state, byte);
 		if state == PATTERN.len() - 1 {
 			state = 0;
 			count += 1;
-- 
2.43.0


From db27c21ec1784f3e6c749fb027e77a130fc8dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 06/14] fix: reject packets with a length too small for an
 instruction and checksum

A received packet with a length field of 0, 1 or 2 caused a panic.
---
 src/bus/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 19eec2b..cb6e545 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -242,6 +242,16 @@ where
 				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
 				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;
 
+				// Every packet has at least an instruction ID and a checksum.
+				if body_len < 3 {
+					self.consume_read_bytes(HEADER_SIZE);
+					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
+						actual: body_len,
+						expected: crate::ExpectedCount::Min(3),
+					})
+					.into());
+				}
+
 				// Check if the read buffer is large enough for the entire message.
 				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
 					self.consume_read_bytes(HEADER_SIZE);
-- 
2.43.0


From c10c788d917de0f81458badd726aa0dc4975ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 07/14] fix: reject status packets without error field

The check forgot that the instruction ID is counted too, so using the status packet caused a panic.
---
 src/bus/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index cb6e545..7e1b3d1 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -296,8 +296,8 @@ where
 		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];
 		let packet = packet::Packet { data };
 
-		// Ensure that status packets have an error field (included in parameter_count here).
-		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 1 {
+		// Ensure that status packets have an error field (the instruction ID and the error field are included in parameter_count here).
+		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 2 {
 			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
 				actual: 0,
 				expected: crate::ExpectedCount::Min(1),
-- 
2.43.0


From 04ef1d5a20f44b19fa34b6d7ad7b8a2b80f71bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 08/14] fix: keep room for the checksum when stuffing a packet

If the stuffed body filled the last bytes of the write buffer, writing the checksum caused a panic.
Also report the sizes of the whole packet and buffer if the stuffed packet does not fit.
---
 src/bus/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 7e1b3d1..4a28170 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -205,7 +205,14 @@ where
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
 		// However, strictly following the spec, the instruction ID might need stuffing.
-		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..], 1 + parameter_count)?;
+		// Leave room for the checksum behind the body.
+		let body_end = buffer.len() - 2;
+		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..body_end], 1 + parameter_count).map_err(|e| {
+			crate::error::BufferTooSmallError {
+				required_size: HEADER_SIZE + e.required_size + 2,
+				total_size: HEADER_SIZE + e.total_size + 2,
+			}
+		})?;
 
 		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);
 
-- 
2.43.0


From a414cbad6f695b5e0128b11d140e76bf41054357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 09/14] fix: refuse to write packets that are too long for the
 length field

The length field silently overflowed (or caused a panic in debug builds).
---
 src/bus/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 4a28170..f471b95 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -24,6 +24,9 @@ const HEADER_PREFIX: [u8; 4] = [0xFF, 0xFF, 0xFD, 0x00];
 /// Excludes the instruction ID, the error field of status packets, the parameters and the CRC.
 const HEADER_SIZE: usize = 7;
 
+/// The maximum size of a stuffed message: the length field can not represent anything longer.
+const MAX_MESSAGE_SIZE: usize = HEADER_SIZE + u16::MAX as usize;
+
 /// Default buffer type.
 ///
 /// Defaults to [`Vec<u8>`] if the `"alloc"` or `"std"` feature is enabled.
@@ -192,6 +195,10 @@ where
 	{
 		let buffer = self.write_buffer.as_mut();
 
+		// Never use more of the buffer than the length field can represent.
+		let buffer_len = buffer.len().min(MAX_MESSAGE_SIZE);
+		let buffer = &mut buffer[..buffer_len];
+
 		// Check if the buffer can hold the unstuffed message.
 		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), buffer.len())?;
 
-- 
2.43.0


From 6fb5b56638b18a164fc0bc3624b20b6322fa6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 10/14] fix: check the buffer size when decoding an array

Decoding an array panicked if the buffer was too small, and ignored excess data if it was too large.
---
 src/bus/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 4875a70..23b4472 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -95,6 +95,7 @@ impl<T: Data, const N: usize> Data for [T; N] {
 
 	fn decode(buffer: &[u8]) -> Result<Self, crate::InvalidMessage> {
 		let encoded_size = T::ENCODED_SIZE as usize;
+		crate::error::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;
 		let mut output = ArrayInitializer::new();
 		for i in 0..N {
 			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
-- 
2.43.0


From 7e290cb5e16052c122b75bce2f8dd36ddba9cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 11/14] fix: do not drop the elements of a decoded array

ArrayInitializer::finish() returned the elements and also dropped them.
---
 src/bus/data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 23b4472..37e0c8e 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -144,7 +144,10 @@ impl<T: Sized, const N: usize> ArrayInitializer<T, N> {
 		debug_assert!(self.initialized == N);
 		// SAFETY: The caller must guarantee that `self.data` is fully initialized,
 		// if they did, reading it as `[T; N]` is sound.
-		core::ptr::read(self.data.as_ptr().cast())
+		let data = core::ptr::read(self.data.as_ptr().cast());
+		// The elements have been moved out of `self`, so do not drop them.
+		core::mem::forget(self);
+		data
 	}
 }
 
-- 
2.43.0


From 0d6e7ff81fb219ca7751c434a6f5c8561b813790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 12/14] fix: check the packet ID of the response to a unicast
 instruction

The response of a different motor was accepted by write, reg_write, action, reboot, clear and factory_reset.
---
 src/instructions/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instructions/mod.rs b/src/instructions/mod.rs
index cd1d4cd..dd7bc8c 100644
--- a/src/instructions/mod.rs
+++ b/src/instructions/mod.rs
@@ -118,6 +118,8 @@ where
 			data: (),
 		})
 	} else {
-		Ok(client.read_status_response(0)?.try_into()?)
+		let response = client.read_status_response(0)?;
+		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
+		Ok(response.try_into()?)
 	}
 }
-- 
2.43.0


From da04ff0a2656c217e21de3858a2e97247f932f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 13/14] fix: panic on duplicate motor IDs in bulk_write as
 documented

---
 src/instructions/bulk_write.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/instructions/bulk_write.rs b/src/instructions/bulk_write.rs
index f3bec14..16cbcfd 100644
--- a/src/instructions/bulk_write.rs
+++ b/src/instructions/bulk_write.rs
@@ -70,6 +70,16 @@ where
 			parameter_count += 5 + data.len();
 		}
 
+		let mut remaining = writes.clone();
+		while let Some(write) = remaining.next() {
+			let motor_id = write.borrow().motor_id;
+			for other in remaining.clone() {
+				if other.borrow().motor_id == motor_id {
+					panic!("bulk_write: motor ID {} used multiple times", motor_id);
+				}
+			}
+		}
+
 		self.write_instruction(packet_id::BROADCAST, instruction_id::BULK_WRITE, parameter_count, |buffer| {
 			let mut offset = 0;
 			for write in writes {
-- 
2.43.0


From 95a34d17038fae3c29af5c4355532d79a369d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 14/14] fix: stop draining a scan when the serial port reports
 an error

Dropping a Scan never returned if the serial port kept reporting an error other than a timeout,
or if the read buffer was too small for any packet.
---
 src/instructions/ping.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/instructions/ping.rs b/src/instructions/ping.rs
index 106db49..e550775 100644
--- a/src/instructions/ping.rs
+++ b/src/instructions/ping.rs
@@ -115,7 +115,14 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	fn drop(&mut self) {
-		while self.next().is_some() {}
+		loop {
+			match self.next() {
+				None => break,
+				// These errors may never go away, so do not keep trying.
+				Some(Err(ReadError::Io(_) | ReadError::BufferFull(_))) => break,
+				Some(_) => (),
+			}
+		}
 	}
 }
 
-- 
2.43.0

