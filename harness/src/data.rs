//! Encoding and decoding of values (`Data`).

use crate::ops::*;
use crate::rt::*;
use crate::spec::{self, Bytes};
use crate::world::*;
use core::cell::UnsafeCell;
use dynamixel2::bus::Data;
use dynamixel2::instructions::SyncWriteData;
use dynamixel2::{BufferTooSmallError, InvalidMessage, InvalidParameterCount};

/// Encode `v` into a buffer of every size around its own; decode every length around its own.
fn judge_value<T: Data>(v: T, le: &[u8], to_le: impl Fn(T) -> Bytes) {
	let n = le.len();
	check(T::ENCODED_SIZE as usize == n, 1, "the encoded size is the sum of the sizes of the parts");
	let size = pick(0, n + 3);
	let mut b = [0u8; 32];
	fill_any(&mut b[..n + 3]);
	let old = b;
	match v.encode(&mut b[..size]) {
		Ok(()) => {
			check(size >= n, 2, "a buffer that is too small is refused");
			check(eq(&b[..n], le), 3, "values are encoded with the least significant byte first, in order");
			check(eq(&b[n..], &old[n..]), 4, "encoding writes only the encoded size");
			obs_bytes(&b[..n]);
			cover(1);
		},
		Err(e) => {
			check(size < n, 5, "a buffer that is large enough is accepted");
			check((e.required_size == n) & (e.total_size == size), 6, "the error names both sizes");
			check(eq(&b[size..], &old[size..]), 7, "encoding does not write beyond the buffer");
			cover(2);
		},
	}
	let mut x = [0u8; 32];
	fill_any(&mut x[..n + 3]);
	let size = pick(0, n + 3);
	match T::decode(&x[..size]) {
		Ok(v) => {
			check(size == n, 8, "only data of the encoded size are decoded");
			let d = to_le(v);
			check(eq(d.s(), &x[..n]), 9, "decoding is the inverse of encoding");
			let mut again = [0u8; 32];
			cover(3);
			let v = match T::decode(d.s()) {
				Ok(v) => v,
				Err(_) => {
					check(false, 14, "data of the encoded size are decoded");
					return;
				},
			};
			check(v.encode(&mut again[..n]).is_ok() && eq(&again[..n], &x[..n]), 10, "encoding is the inverse of decoding");
		},
		Err(InvalidMessage::InvalidParameterCount(e)) => {
			check(size != n, 11, "data of the encoded size are decoded");
			check(matches!(count(e), R::Count { actual, kind: 0, expected } if actual == size && expected == n), 12, "the error names both sizes");
			cover(4);
		},
		Err(_) => check(false, 13, "data of another size are reported as such"),
	}
}

/// Values of type number `param(0)`.
#[no_mangle]
pub extern "C" fn h_data() {
	macro_rules! num {
		($t:ty, $v:expr) => {{
			let v = $v as $t;
			judge_value::<$t>(v, &v.to_le_bytes(), |x| Bytes::of(&x.to_le_bytes()))
		}};
	}
	macro_rules! arr {
		($t:ty, $v:expr) => {{
			let v = $v;
			let mut le = Bytes::new();
			for x in v {
				le.put(&x.to_le_bytes());
			}
			judge_value::<$t>(v, le.s(), |v| {
				let mut le = Bytes::new();
				for x in v {
					le.put(&x.to_le_bytes());
				}
				le
			})
		}};
	}
	match param(0) {
		0 => num!(u8, any_u8()),
		1 => num!(i8, any_u8()),
		2 => num!(u16, any_u16()),
		3 => num!(i16, any_u16()),
		4 => num!(u32, any_u32()),
		5 => num!(i32, any_u32()),
		6 => num!(u64, any_u64()),
		7 => num!(i64, any_u64()),
		8 => num!(u128, any_u128()),
		9 => num!(i128, any_u128()),
		10 => arr!([u8; 5], [any_u8(), any_u8(), any_u8(), any_u8(), any_u8()]),
		11 => arr!([i16; 3], [any_u16() as i16, any_u16() as i16, any_u16() as i16]),
		12 => arr!([u32; 2], [any_u32(), any_u32()]),
		13 => arr!([u64; 1], [any_u64()]),
		14 => arr!([u8; 0], [0u8; 0]),
		15 => {
			let v = [[any_u16(), any_u16()], [any_u16(), any_u16()], [any_u16(), any_u16()]];
			let flat = |v: [[u16; 2]; 3]| {
				let mut le = Bytes::new();
				for r in v {
					for x in r {
						le.le16(x);
					}
				}
				le
			};
			judge_value::<[[u16; 2]; 3]>(v, flat(v).s(), flat)
		},
		16 => arr!([i8; 4], [any_u8() as i8, any_u8() as i8, any_u8() as i8, any_u8() as i8]),
		_ => {
			// an element whose size in memory differs from its encoded size
			let v = [Rgb(any_u8(), any_u16()), Rgb(any_u8(), any_u16())];
			let flat = |v: [Rgb; 2]| {
				let mut le = Bytes::new();
				for x in v {
					le.push(x.0);
					le.le16(x.1);
				}
				le
			};
			judge_value::<[Rgb; 2]>(v, flat(v).s(), flat)
		},
	}
}

/// Three encoded bytes, four in memory.
#[derive(Clone, Copy)]
struct Rgb(u8, u16);
impl Data for Rgb {
	const ENCODED_SIZE: u16 = 3;
	fn encode(&self, b: &mut [u8]) -> Result<(), BufferTooSmallError> {
		BufferTooSmallError::check(3, b.len())?;
		b[0] = self.0;
		b[1] = self.1 as u8;
		b[2] = (self.1 >> 8) as u8;
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		InvalidParameterCount::check(b.len(), 3)?;
		Ok(Rgb(b[0], b[1] as u16 | (b[2] as u16) << 8))
	}
}

/// What happened to the elements of type `Tracked`.
struct Track {
	made: usize,
	dropped: usize,
	alive: [bool; 16],
	twice: bool,
	refuse: [bool; 16],
}
struct Cell(UnsafeCell<Track>);
unsafe impl Sync for Cell {}
static TRACK: Cell = Cell(UnsafeCell::new(Track { made: 0, dropped: 0, alive: [false; 16], twice: false, refuse: [false; 16] }));
#[allow(clippy::mut_from_ref)]
fn track() -> &'static mut Track {
	unsafe { &mut *TRACK.0.get() }
}
/// An element that owns memory, and whose decoding and encoding can fail.
struct Tracked {
	number: usize,
	value: alloc::boxed::Box<u8>,
}
impl Drop for Tracked {
	fn drop(&mut self) {
		let t = track();
		if self.number >= 16 || !t.alive[self.number] {
			t.twice = true;
		} else {
			t.alive[self.number] = false;
			t.dropped += 1;
		}
	}
}
impl Data for Tracked {
	const ENCODED_SIZE: u16 = 1;
	fn encode(&self, b: &mut [u8]) -> Result<(), BufferTooSmallError> {
		BufferTooSmallError::check(1, b.len())?;
		if track().refuse[self.number] {
			return Err(BufferTooSmallError { required_size: 7, total_size: 3 });
		}
		b[0] = *self.value;
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		InvalidParameterCount::check(b.len(), 1)?;
		let t = track();
		let number = t.made;
		if number >= 16 || t.refuse[number] {
			return Err(InvalidMessage::InvalidParameterCount(InvalidParameterCount { actual: 77, expected: dynamixel2::ExpectedCount::Max(5) }));
		}
		t.made += 1;
		t.alive[number] = true;
		Ok(Tracked { number, value: alloc::boxed::Box::new(b[0]) })
	}
}

/// Arrays of elements that own memory and may fail to decode: every element is dropped exactly once, and the failure
/// is reported. `param(0)`: 0 array decoded directly, 1 nested, 2 by the client.
#[no_mangle]
pub extern "C" fn h_data_drop() {
	let t = track();
	*t = Track { made: 0, dropped: 0, alive: [false; 16], twice: false, refuse: [false; 16] };
	let fail = choose(5) as usize;
	if fail < 4 {
		t.refuse[fail] = true;
	}
	let mut x = [0u8; 4];
	fill_any(&mut x);
	let w = World::new();
	let mut judge = |r: Result<[Tracked; 4], R>| match r {
		Ok(v) => {
			check(fail == 4, 1, "the failure of an element is reported");
			check(t.dropped == 0, 2, "the elements of a decoded array are alive");
			for i in 0..4 {
				check(v[i].number == i && *v[i].value == x[i], 3, "the elements are decoded in order");
			}
			drop(v);
			cover(1);
		},
		Err(e) => {
			check(fail < 4, 4, "without the failure of an element the array is decoded");
			check(e.same(&R::Count { actual: 77, kind: 1, expected: 5 }), 5, "the failure of an element is passed on");
			cover(2);
		},
	};
	let msg = |e| match e {
		InvalidMessage::InvalidParameterCount(c) => count(c),
		_ => R::End,
	};
	match param(0) {
		0 => judge(<[Tracked; 4]>::decode(&x).map_err(msg)),
		1 => judge(<[[Tracked; 2]; 2]>::decode(&x).map_err(msg).map(|v| {
			let [[a, b], [c, d]] = v;
			[a, b, c, d]
		})),
		_ => {
			w.barrier(0);
			w.feed(spec::status(9, 0, &x).s());
			let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
			let mut c = w.client(&mut r, &mut b);
			judge(c.read::<[Tracked; 4]>(9, 3).map(|r| r.data).map_err(terr));
		},
	}
	check(!t.twice, 6, "no element is dropped twice");
	check(t.made == t.dropped, 7, "no element is leaked");
	obs(t.made as u64);
	cover(3);
}

/// The failure of an encoding is reported, and nothing is transmitted. `param(0)`: the operation.
#[no_mangle]
pub extern "C" fn h_encode_fail() {
	let kind = param(0);
	let t = track();
	*t = Track { made: 0, dropped: 0, alive: [false; 16], twice: false, refuse: [false; 16] };
	let mut x = [0u8; 3];
	fill_any(&mut x);
	let mut made = [None, None, None];
	for i in 0..3 {
		made[i] = Tracked::decode(&x[i..i + 1]).ok();
	}
	let [Some(a), Some(b), Some(c)] = made else {
		check(false, 1, "the elements are decoded");
		return;
	};
	let v = [a, b, c];
	let fail = choose(4) as usize;
	if fail < 3 {
		t.refuse[fail] = true;
	}
	let w = World::new();
	let (mut r, mut wb) = ([0u8; 64], [0u8; 64]);
	let (id, addr, q) = (any_u8(), any_u16(), any_u8());
	assume(id != spec::BROADCAST);
	w.barrier(0);
	w.feed(spec::status(id, 0, &[]).s());
	let mut p = Bytes::new();
	p.le16(addr);
	let (ins, to, got) = match kind {
		0 => {
			p.put(&x);
			(spec::WRITE, id, unit(w.client(&mut r, &mut wb).write(id, addr, &v)))
		},
		1 => {
			p.put(&x);
			(spec::REG_WRITE, id, unit(w.client(&mut r, &mut wb).reg_write(id, addr, &v)))
		},
		2 => {
			p.le16(1);
			let [a, b, c] = v;
			p.put(&[1, x[0], 2, x[1], q, x[2]]);
			let s = [
				SyncWriteData { motor_id: 1, data: a },
				SyncWriteData { motor_id: 2, data: b },
				SyncWriteData { motor_id: q, data: c },
			];
			(spec::SYNC_WRITE, spec::BROADCAST, wres(w.client(&mut r, &mut wb).sync_write(addr, &s)))
		},
		3 => {
			let res = w.client(&mut r, &mut wb).write_instruction(id, q, 5, |b| {
				check(b.len() == 5, 2, "the encoder gets a buffer of the size of the parameters");
				b[..2].copy_from_slice(&addr.to_le_bytes());
				v.encode(&mut b[2..])
			});
			p.put(&x);
			(q, id, wres(res))
		},
		_ => {
			let res = w.device(&mut r, &mut wb).write_status(id, q, 5, |b| {
				check(b.len() == 5, 2, "the encoder gets a buffer of the size of the parameters");
				b[..2].copy_from_slice(&addr.to_le_bytes());
				v.encode(&mut b[2..])
			});
			p.n = 0;
			p.push(q);
			p.le16(addr);
			p.put(&x);
			(spec::STATUS, id, wres(res))
		},
	};
	got.obs();
	if fail < 3 {
		check(got.same(&R::WSmall { required: 7, total: 3 }), 3, "the failure of an encoding is passed on");
		check(w.m().writes == 0, 4, "nothing is transmitted after the failure of an encoding");
		check(w.m().reads == 0 && w.m().deadlines == 0, 5, "no reply is waited for after the failure of an encoding");
		cover(1);
	} else {
		check(got.is_ok(), 6, "without a failure the operation succeeds");
		check(w.sent_is(spec::frame(to, ins, p.s()).s()), 7, "the encoded values are transmitted");
		cover(2);
	}
}
