//! Independent reference of the Dynamixel Protocol 2.0 (from the protocol documentation), written without branches
//! on data where possible.

use crate::rt::concrete;

pub const MAX: usize = 320;

/// CRC-16, polynomial 0x8005, most significant bit first, no reflection, no final XOR.
pub fn crc(init: u16, data: &[u8]) -> u16 {
	let mut c = init;
	for &b in data {
		c ^= (b as u16) << 8;
		for _ in 0..8 {
			let top = c >> 15;
			c = (c << 1) ^ (0x8005 & 0u16.wrapping_sub(top));
		}
	}
	c
}

/// A byte string with a capacity of `MAX`.
#[derive(Clone, Copy)]
pub struct Bytes {
	pub b: [u8; MAX],
	pub n: usize,
}
impl Bytes {
	pub const fn new() -> Self {
		Bytes { b: [0; MAX], n: 0 }
	}
	pub fn of(x: &[u8]) -> Self {
		let mut r = Self::new();
		r.put(x);
		r
	}
	#[inline(always)]
	pub fn push(&mut self, x: u8) {
		self.b[self.n] = x;
		self.n += 1;
	}
	pub fn put(&mut self, x: &[u8]) {
		for i in 0..x.len() {
			self.push(x[i]);
		}
	}
	pub fn le16(&mut self, x: u16) {
		self.push(x as u8);
		self.push((x >> 8) as u8);
	}
	pub fn s(&self) -> &[u8] {
		&self.b[..self.n]
	}
}

/// Byte stuffing: behind every `FF FF FD` of the body goes an extra `FD`.
pub fn stuff(body: &[u8]) -> Bytes {
	let mut o = Bytes::new();
	let mut p1 = 0u8; // the byte before
	let mut p2 = 0u8; // the byte before that
	for &x in body {
		o.push(x);
		if (p2 == 0xFF) & (p1 == 0xFF) & (x == 0xFD) {
			o.push(0xFD);
		}
		p2 = p1;
		p1 = x;
	}
	o
}

/// Inverse of `stuff`: the byte behind every `FF FF FD` is dropped if it is `FD`.
pub fn unstuff(body: &[u8]) -> Bytes {
	let mut o = Bytes::new();
	let (mut p1, mut p2, mut p3) = (0u8, 0u8, 0u8);
	for &x in body {
		if (p3 == 0xFF) & (p2 == 0xFF) & (p1 == 0xFD) & (x == 0xFD) {
			// dropped; what follows starts a new window
			p1 = x;
			p2 = 0;
			p3 = 0;
			continue;
		}
		o.push(x);
		p3 = p2;
		p2 = p1;
		p1 = x;
	}
	o
}

/// A complete frame: header, ID, length, stuffed body, CRC.
pub fn frame(id: u8, instruction: u8, params: &[u8]) -> Bytes {
	let mut body = Bytes::new();
	body.push(instruction);
	body.put(params);
	let st = stuff(body.s());
	frame_raw(id, st.s())
}
/// A complete frame around an already stuffed body.
pub fn frame_raw(id: u8, st: &[u8]) -> Bytes {
	let mut o = Bytes::new();
	o.put(&[0xFF, 0xFF, 0xFD, 0x00, id]);
	o.le16((st.len() + 2) as u16);
	o.put(st);
	let c = crc(0, o.s());
	o.le16(c);
	o
}
/// A status frame.
pub fn status(id: u8, error: u8, params: &[u8]) -> Bytes {
	let mut p = Bytes::new();
	p.push(error);
	p.put(params);
	frame(id, 0x55, p.s())
}

/// Does the slice contain the header prefix `FF FF FD 00`?
pub fn has_header(x: &[u8]) -> bool {
	let mut found = false;
	let mut i = 0;
	while i + 4 <= x.len() {
		found |= (x[i] == 0xFF) & (x[i + 1] == 0xFF) & (x[i + 2] == 0xFD) & (x[i + 3] == 0x00);
		i += 1;
	}
	found
}

pub const PING: u8 = 0x01;
pub const READ: u8 = 0x02;
pub const WRITE: u8 = 0x03;
pub const REG_WRITE: u8 = 0x04;
pub const ACTION: u8 = 0x05;
pub const FACTORY_RESET: u8 = 0x06;
pub const REBOOT: u8 = 0x08;
pub const CLEAR: u8 = 0x10;
pub const SYNC_READ: u8 = 0x82;
pub const SYNC_WRITE: u8 = 0x83;
pub const BULK_READ: u8 = 0x92;
pub const BULK_WRITE: u8 = 0x93;
pub const STATUS: u8 = 0x55;
pub const BROADCAST: u8 = 0xFE;

/// What a receiver makes of a byte stream.
#[derive(Clone, Copy)]
pub enum Ev {
	/// A frame with a correct CRC.
	Frame { id: u8, ins: u8, body: Bytes },
	BadCrc { message: u16, computed: u16 },
	/// The length field announces more than the receive buffer holds.
	Long { required: usize },
	/// The length field is too small for an instruction byte and a CRC.
	Short { len: usize },
	/// The stream ended before a complete frame.
	More,
}

/// The next event of stream `rx` from position `pos`, for a receiver with a buffer of `cap` bytes.
/// Everything before the next header prefix is skipped. A frame is consumed as a whole (also if its CRC is wrong),
/// of a frame with an impossible length only the header is.
pub fn next(rx: &[u8], pos: &mut usize, cap: usize) -> Ev {
	let mut i = *pos;
	loop {
		if i + 4 > rx.len() {
			return Ev::More;
		}
		if (rx[i] == 0xFF) & (rx[i + 1] == 0xFF) & (rx[i + 2] == 0xFD) & (rx[i + 3] == 0) {
			break;
		}
		i += 1;
	}
	*pos = i;
	if rx.len() - i < 8 {
		return Ev::More;
	}
	let len = rx[i + 5] as usize | (rx[i + 6] as usize) << 8;
	if len + 7 > cap {
		*pos = i + 7;
		return Ev::Long { required: len + 7 };
	}
	if len < 3 {
		*pos = i + 7;
		return Ev::Short { len };
	}
	if i + 7 + len > rx.len() {
		return Ev::More;
	}
	// one path for every length
	let l = concrete(len);
	let end = i + 7 + l;
	*pos = end;
	let message = rx[end - 2] as u16 | (rx[end - 1] as u16) << 8;
	let computed = crc(0, &rx[i..end - 2]);
	if message != computed {
		return Ev::BadCrc { message, computed };
	}
	Ev::Frame { id: rx[i + 4], ins: rx[i + 7], body: unstuff(&rx[i + 7..end - 2]) }
}
