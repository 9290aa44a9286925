//! The texts of errors: they name what happened, with the right numbers.

use crate::rt::*;
use crate::world::E;
use core::fmt::{Display, Write};
use dynamixel2::*;

pub struct Text {
	b: [u8; 160],
	n: usize,
}
impl Write for Text {
	fn write_str(&mut self, s: &str) -> core::fmt::Result {
		let s = s.as_bytes();
		for i in 0..s.len() {
			self.b[self.n] = s[i];
			self.n += 1;
		}
		Ok(())
	}
}
fn text(x: &dyn Display) -> Text {
	let mut t = Text { b: [0; 160], n: 0 };
	check(write!(t, "{}", x).is_ok(), 90, "an error has a text");
	t
}
/// The value of a hexadecimal digit, or more than 15.
fn digit(x: u8) -> u32 {
	let d = x.wrapping_sub(b'0');
	let l = (x | 0x20).wrapping_sub(b'a');
	if d < 10 {
		d as u32
	} else if l < 6 {
		l as u32 + 10
	} else {
		99
	}
}
impl Text {
	fn has(&self, word: &[u8]) -> Option<usize> {
		for i in 0..(self.n + 1).saturating_sub(word.len()) {
			if eq(&self.b[i..i + word.len()], word) {
				return Some(i + word.len());
			}
		}
		None
	}
	/// The number behind the word (hexadecimal if marked so, or if `hex`); more than u32 if there is none.
	fn number(&self, word: &[u8], hex: bool) -> u64 {
		let Some(mut i) = self.has(word) else { return 1 << 40 };
		// to the next digit
		while i < self.n && self.b[i].wrapping_sub(b'0') >= 10 && !(hex && digit(self.b[i]) < 16) {
			i += 1;
		}
		self.at(&mut i, hex)
	}
	fn at(&self, i: &mut usize, mut hex: bool) -> u64 {
		if *i + 1 < self.n && self.b[*i] == b'0' && self.b[*i + 1] == b'x' {
			*i += 2;
			hex = true;
		}
		let base = if hex { 16 } else { 10 };
		let mut v = 1u64 << 40;
		while *i < self.n && (digit(self.b[*i]) as u64) < base {
			v = if v == 1 << 40 { 0 } else { v };
			v = v * base + digit(self.b[*i]) as u64;
			*i += 1;
		}
		v
	}
}
fn same(a: &Text, b: &Text) -> bool {
	a.n == b.n && eq(&a.b, &b.b)
}
/// A number of bytes: up to 255, or one of some more.
fn size() -> usize {
	let some = [256usize, 1000, 4095, 65_542, 1 << 20];
	match choose(6) {
		5 => any_u8() as usize,
		k => some[k as usize],
	}
}

fn invalid(m: InvalidMessage) {
	let t = text(&m);
	check(same(&t, &text(&ReadError::<E>::from(m.clone()))), 91, "a read error has the text of its reason");
	check(same(&t, &text(&TransferError::<E>::from(m))), 92, "a transfer error has the text of its reason");
	obs_bytes(&t.b[..t.n]);
}

/// Do the errors that contain `e` have its text?
macro_rules! wrapped {
	($t:expr, $e:expr) => {
		same(&$t, &text(&InvalidMessage::from($e.clone()))) && same(&$t, &text(&ReadError::<E>::from($e.clone()))) && same(&$t, &text(&TransferError::<E>::from($e.clone())))
	};
}

/// The text of error `param(0)`.
#[no_mangle]
pub extern "C" fn h_text() {
	match param(0) {
		0 => {
			let e = BufferTooSmallError { required_size: size(), total_size: size() };
			let (a, b) = (e.required_size as u64, e.total_size as u64);
			for k in 0..3 {
				let t = match k {
					0 => text(&e),
					1 => text(&WriteError::<E>::from(BufferTooSmallError { ..e })),
					_ => text(&ReadError::<E>::from(BufferTooSmallError { ..e })),
				};
				check(t.number(b"need ", false) == a, 1, "the text names the required size");
				check(t.number(b"size is ", false) == b, 2, "the text names the size of the buffer");
				check(t.has(b"read").is_some() == (k == 2) && t.has(b"write").is_some() == (k == 1), 3, "the text names the buffer");
				obs_bytes(&t.b[..t.n]);
			}
		},
		1 => {
			let (actual, expected) = (any_u8(), any_u8());
			if choose(2) == 0 {
				let e = InvalidPacketId { actual, expected: Some(expected) };
				let t = text(&e);
				check(t.number(b"expected ", false) == expected as u64, 4, "the text names the expected ID");
				check(t.number(b"got ", false) == actual as u64, 5, "the text names the actual ID");
				check(wrapped!(t, e), 6, "the error has the text of its reason");
				invalid(e.into());
			} else {
				let t = text(&InvalidPacketId { actual, expected: None });
				check(t.number(b"ID: ", false) == actual as u64, 7, "the text names the actual ID");
				obs_bytes(&t.b[..t.n]);
			}
		},
		2 => {
			let e = InvalidInstruction { actual: any_u8(), expected: any_u8() };
			let t = text(&e);
			check(t.number(b"expected ", false) == e.expected as u64, 8, "the text names the expected instruction");
			check(t.number(b"got ", false) == e.actual as u64, 9, "the text names the actual instruction");
			check(wrapped!(t, e), 10, "the error has the text of its reason");
			invalid(e.into());
		},
		3 => {
			let e = InvalidChecksum { message: any_u16(), computed: any_u16() };
			let t = text(&e);
			check(t.number(b"claims ", false) == e.message as u64, 11, "the text names the checksum of the message");
			check(t.number(b"computed ", false) == e.computed as u64, 12, "the text names the computed checksum");
			check(wrapped!(t, e), 13, "the error has the text of its reason");
			invalid(e.into());
		},
		4 => {
			let n = size();
			let k = choose(3);
			let expected = match k {
				0 => ExpectedCount::Exact(n),
				1 => ExpectedCount::Max(n),
				_ => ExpectedCount::Min(n),
			};
			let e = InvalidParameterCount { actual: size(), expected };
			let t = text(&e);
			check(t.number(b"expected ", false) == n as u64, 14, "the text names the expected count");
			check(t.number(b"got ", false) == e.actual as u64, 15, "the text names the actual count");
			check(t.has(b"exactly").is_some() == (k == 0) && t.has(b"at most").is_some() == (k == 1) && t.has(b"at least").is_some() == (k == 2), 16, "the text tells the kind of limit");
			check(wrapped!(t, e), 17, "the error has the text of its reason");
			invalid(e.into());
		},
		5 => {
			let e = MotorError { raw: any_u8() };
			let t = text(&e);
			check(t.number(b"status: ", false) == e.raw as u64, 18, "the text names the error field");
			check(same(&t, &text(&ReadError::<E>::from(e.clone()))) && same(&t, &text(&TransferError::<E>::from(e))), 19, "the error has the text of its reason");
			obs_bytes(&t.b[..t.n]);
		},
		6 => {
			let (a, b) = (any_u32().to_le_bytes(), any_u32().to_le_bytes());
			let e = InvalidHeaderPrefix { actual: a, expected: b };
			let t = text(&e);
			for (word, x) in [(b"expected [", b), (b"     got [", a)] {
				let word = if word[0] == b' ' { &word[5..] } else { &word[..] };
				let mut i = t.has(word).unwrap_or(t.n);
				for k in 0..4 {
					check(t.at(&mut i, true) == x[k] as u64, 20, "the text names the prefixes");
					i += 2;
				}
			}
			invalid(e.into());
		},
		_ => {
			let e = if choose(2) == 0 { E::Timeout } else { E::Io(any_u8()) };
			let own = text(&e);
			let w = choose(3);
			let (t, u) = match w {
				0 => (text(&WriteError::DiscardBuffer(e)), text(&TransferError::from(WriteError::DiscardBuffer(e)))),
				1 => (text(&WriteError::Write(e)), text(&TransferError::from(WriteError::Write(e)))),
				_ => (text(&ReadError::Io(e)), text(&TransferError::from(ReadError::Io(e)))),
			};
			check(same(&t, &u), 21, "a transfer error has the text of its reason");
			check(t.has(&own.b[..own.n]).is_some(), 22, "the text contains that of the serial port");
			check(
				t.has(b"discard").is_some() == (w == 0) && t.has(b"write").is_some() == (w == 1) && t.has(b"read").is_some() == (w == 2),
				23,
				"the text tells which step failed",
			);
			obs_bytes(&t.b[..t.n]);
		},
	}
	cover(1);
}
