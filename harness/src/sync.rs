//! Operations that address several motors: what is transmitted, the response iterators, scanning.

use crate::ops::*;
use crate::rt::*;
use crate::spec::{self, Bytes};
use crate::world::*;
use alloc::vec::Vec;
use core::time::Duration;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, SyncWriteData};
use dynamixel2::*;

fn any_ids(k: usize) -> [u8; 8] {
	let mut ids = [0; 8];
	for j in 0..k {
		ids[j] = any_u8();
	}
	ids
}
/// A view of two bytes, for the operations that lend data from the read buffer.
#[repr(transparent)]
pub struct Nil(pub [u8; 0]);
impl core::borrow::Borrow<Nil> for [u8] {
	fn borrow(&self) -> &Nil {
		check(self.len() == 0, 9921, "the data borrowed from has the size that was asked for");
		&Nil([])
	}
}
#[repr(transparent)]
pub struct Two(pub [u8; 2]);
impl core::borrow::Borrow<Two> for [u8] {
	fn borrow(&self) -> &Two {
		let x: &[u8; 2] = match self.try_into() {
			Ok(x) => x,
			Err(_) => {
				check(false, 989, "data of another length than asked for is lent");
				loop {}
			},
		};
		unsafe { &*(x as *const [u8; 2] as *const Two) }
	}
}
/// A type of the user's, which relies on being given as many bytes as it asked for.
pub struct Mine(pub [u8; 2]);
impl bus::Data for Mine {
	const ENCODED_SIZE: u16 = 2;
	fn encode(&self, buffer: &mut [u8]) -> Result<(), BufferTooSmallError> {
		check(buffer.len() >= 2, 987, "a value is encoded into a buffer that holds it");
		buffer[..2].copy_from_slice(&self.0);
		Ok(())
	}
	fn decode(buffer: &[u8]) -> Result<Self, InvalidMessage> {
		check(buffer.len() == 2, 988, "data of another length than asked for are decoded");
		Ok(Mine([buffer[0], buffer[1]]))
	}
}
fn distinct(ids: &[u8]) -> bool {
	let mut d = true;
	for i in 0..ids.len() {
		for j in i + 1..ids.len() {
			d &= ids[i] != ids[j];
		}
	}
	d
}

fn judge_sync(w: &World, good: bool, ins: u8, p: &Bytes) {
	check(good, 1, "the instruction is transmitted if it fits the write buffer");
	check(w.m().writes == 1, 2, "one packet is transmitted for all motors");
	let f = spec::frame(spec::BROADCAST, ins, p.s());
	obs_bytes(w.sent());
	check(w.sent_is(f.s()), 3, "the instruction packet is the one of the protocol");
	check(w.m().reads == 0, 4, "nothing is read before a response is asked for");
	cover(1);
	if f.n > 10 + p.n {
		cover(2);
	}
}

/// Sync read of `param(0)` motors, variant `param(1)`.
#[no_mangle]
pub extern "C" fn h_sync_read_tx() {
	let (k, kind) = (param(0), param(1));
	let w = World::new();
	let ids = any_ids(k);
	let ids = &ids[..k];
	let addr = any_u16();
	let mut count = any_u16();
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	macro_rules! go {
		($e:expr) => {
			match $e {
				Ok(it) => {
					check(it.remaining() == k, 5, "as many responses are outstanding as motors were asked");
					core::mem::forget(it);
					true
				},
				Err(_) => false,
			}
		};
	}
	let good = match kind {
		0 => go!(c.sync_read_bytes::<Vec<u8>>(ids, addr, count)),
		1 => go!(c.sync_read_bytes_borrow::<Two>(ids, addr, count)),
		k => {
			count = [1, 2, 4, 8, 16, 6, 0, 2, 1, 4][k - 2];
			match k {
				2 => go!(c.sync_read::<u8>(ids, addr)),
				3 => go!(c.sync_read::<i16>(ids, addr)),
				4 => go!(c.sync_read::<u32>(ids, addr)),
				5 => go!(c.sync_read::<u64>(ids, addr)),
				6 => go!(c.sync_read::<u128>(ids, addr)),
				7 => go!(c.sync_read::<[u16; 3]>(ids, addr)),
				8 => go!(c.sync_read::<[u16; 0]>(ids, addr)),
				9 => go!(c.sync_read::<Mine>(ids, addr)),
				10 => go!(c.sync_read::<i8>(ids, addr)),
				_ => go!(c.sync_read::<[[u8; 2]; 2]>(ids, addr)),
			}
		},
	};
	let mut p = Bytes::new();
	p.le16(addr);
	p.le16(count);
	p.put(ids);
	judge_sync(&w, good, spec::SYNC_READ, &p);
}

/// Sync write to `param(0)` motors, variant `param(1)`.
#[no_mangle]
pub extern "C" fn h_sync_write_tx() {
	let (k, kind) = (param(0), param(1));
	let w = World::new();
	let addr = any_u16();
	let (mut r, mut b) = ([0u8; 64], [0u8; 128]);
	let mut c = w.client(&mut r, &mut b);
	let mut p = Bytes::new();
	p.le16(addr);
	macro_rules! value {
		($n:expr, $get:expr, $enc:expr) => {{
			p.le16($n);
			let mut v = Vec::new();
			for _ in 0..k {
				let motor_id = any_u8();
				let data = $get;
				p.push(motor_id);
				p.put(&$enc(data));
				v.push(SyncWriteData { motor_id, data });
			}
			c.sync_write(addr, &v).is_ok()
		}};
	}
	let good = match kind {
		0 => value!(1, any_u8(), |x: u8| [x]),
		1 => value!(2, any_u16(), |x: u16| x.to_le_bytes()),
		2 => value!(4, any_u32(), |x: u32| x.to_le_bytes()),
		3 => value!(4, any_u32() as i32, |x: i32| x.to_le_bytes()),
		4 => value!(3, [any_u8(), any_u8(), any_u8()], |x: [u8; 3]| x),
		5 => value!(4, [any_u16(), any_u16()], |x: [u16; 2]| {
			let (a, b) = (x[0].to_le_bytes(), x[1].to_le_bytes());
			[a[0], a[1], b[0], b[1]]
		}),
		6 => value!(0, [0u32; 0], |_| [0u8; 0]),
		7 => {
			p.le16(2);
			let mut v = Vec::new();
			for _ in 0..k {
				let (motor_id, data) = (any_u8(), [any_u8(), any_u8()]);
				p.push(motor_id);
				p.put(&data);
				v.push(SyncWriteData { motor_id, data: Mine(data) });
			}
			c.sync_write(addr, &v).is_ok()
		},
		n => {
			// byte strings of length n - 10
			let n = n - 10;
			p.le16(n as u16);
			let mut v = Vec::new();
			for _ in 0..k {
				let motor_id = any_u8();
				let mut d = Vec::new();
				for _ in 0..n {
					d.push(any_u8());
				}
				p.push(motor_id);
				p.put(&d);
				v.push(SyncWriteData { motor_id, data: d });
			}
			c.sync_write_bytes(addr, n as u16, &v).is_ok()
		},
	};
	judge_sync(&w, good, spec::SYNC_WRITE, &p);
	check(w.m().pos == 0 && w.m().deadlines == 0, 6, "no reply to a write to several motors is waited for");
}

/// Sync write of byte strings whose lengths differ from the announced one: a panic, and nothing transmitted.
#[no_mangle]
pub extern "C" fn h_sync_write_len() {
	let k = param(0);
	let w = World::new();
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	let count = pick(0, 3);
	let mut v = Vec::new();
	let mut fine = true;
	for _ in 0..k {
		let l = pick(0, 3);
		fine &= l == count;
		let mut d = Vec::new();
		for _ in 0..l {
			d.push(any_u8());
		}
		v.push(SyncWriteData { motor_id: any_u8(), data: d });
	}
	if !fine {
		w.m().no_tx = true;
		allow_panic(true);
		cover(2);
	}
	let good = c.sync_write_bytes(any_u16(), count as u16, &v).is_ok();
	check(fine, 1, "data of a length other than announced is refused with a panic");
	check(good, 2, "data of the announced length is written");
	cover(1);
}

/// Bulk read of `param(0)` motors, variant `param(1)`: transmitted, unless an ID occurs twice.
#[no_mangle]
pub extern "C" fn h_bulk_read_tx() {
	let (k, kind) = (param(0), param(1));
	let w = World::new();
	let ids = any_ids(k);
	let mut v = Vec::new();
	let mut p = Bytes::new();
	for j in 0..k {
		let (address, count) = (any_u16(), any_u16());
		p.push(ids[j]);
		p.le16(address);
		p.le16(count);
		v.push(BulkReadData { motor_id: ids[j], address, count });
	}
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	let fine = distinct(&ids[..k]);
	if !fine {
		w.m().no_tx = true;
		allow_panic(true);
		cover(3);
	}
	let good = match kind {
		0 => match c.bulk_read_bytes::<Vec<u8>>(&v) {
			Ok(it) => {
				check(it.remaining() == k, 5, "as many responses are outstanding as motors were asked");
				core::mem::forget(it);
				true
			},
			Err(_) => false,
		},
		_ => match c.bulk_read_bytes_borrow::<Two>(&v) {
			Ok(it) => {
				check(it.remaining() == k, 5, "as many responses are outstanding as motors were asked");
				core::mem::forget(it);
				true
			},
			Err(_) => false,
		},
	};
	check(fine, 7, "an ID that is used twice is refused with a panic");
	judge_sync(&w, good, spec::BULK_READ, &p);
}

/// Bulk write to `param(0)` motors with `param(1)`, `param(2)`, `param(3)` bytes.
#[no_mangle]
pub extern "C" fn h_bulk_write_tx() {
	let k = param(0);
	let w = World::new();
	let ids = any_ids(k);
	let mut v = Vec::new();
	let mut p = Bytes::new();
	for j in 0..k {
		let address = any_u16();
		let mut data = Vec::new();
		for _ in 0..param(1 + j as u32) {
			data.push(any_u8());
		}
		p.push(ids[j]);
		p.le16(address);
		p.le16(data.len() as u16);
		p.put(&data);
		v.push(BulkWriteData { motor_id: ids[j], address, data });
	}
	let (mut r, mut b) = ([0u8; 64], [0u8; 128]);
	let mut c = w.client(&mut r, &mut b);
	let fine = distinct(&ids[..k]);
	if !fine {
		w.m().no_tx = true;
		allow_panic(true);
		cover(3);
	}
	let good = c.bulk_write(&v).is_ok();
	check(fine, 7, "an ID that is used twice is refused with a panic");
	judge_sync(&w, good, spec::BULK_WRITE, &p);
	check(w.m().pos == 0 && w.m().deadlines == 0, 6, "no reply to a write to several motors is waited for");
}

// ---------------------------------------------------------------- responses

/// The replies of up to three motors.
pub struct Replies {
	pub k: usize,
	/// IDs that were asked.
	pub ids: [u8; 8],
	pub counts: [usize; 8],
	/// What they reply.
	pub rid: [u8; 8],
	pub err: [u8; 8],
	pub d: [Bytes; 3],
}
impl Replies {
	/// Arbitrary replies of `k` motors, with `counts[j] + delta` parameters; `mode` 0: arbitrary ID and error field;
	/// 1: the right ID and no error.
	pub fn any(w: &World, k: usize, counts: [usize; 3], delta: usize, mode: usize) -> Replies {
		let ids = any_ids(k);
		let mut s = Replies { k, ids, counts: [0; 8], rid: [0; 8], err: [0; 8], d: [Bytes::new(); 3] };
		for j in 0..k {
			s.counts[j] = counts[j];
			s.rid[j] = if mode == 0 { any_u8() } else { ids[j] };
			s.err[j] = if mode == 0 { any_u8() } else { any_u8() & 0x80 };
			for _ in 0..counts[j] + delta {
				s.d[j].push(any_u8());
			}
			w.feed(spec::status(s.rid[j], s.err[j], s.d[j].s()).s());
		}
		s
	}
	fn judge(&self, j: usize, r: &R) {
		r.obs();
		judge(r, self.ids[j], self.counts[j], self.rid[j], self.err[j], self.d[j].s(), 20);
	}
}

fn res<T>(r: Result<Response<T>, ReadError<E>>, f: impl FnOnce(T) -> ([u8; 16], usize)) -> R {
	match r {
		Ok(r) => {
			let (data, n) = f(r.data);
			R::Ok { id: r.motor_id, alert: r.alert, data, n }
		},
		Err(e) => rerr(e),
	}
}
fn some(x: &[u8]) -> ([u8; 16], usize) {
	check(x.len() <= 16, 993, "more data than was asked for");
	let mut d = [0; 16];
	d[..x.len()].copy_from_slice(x);
	(d, x.len())
}

/// Responses of a multi-motor read: `param(0)` motors, variant `param(1)`, `param(2)` surplus parameters, chunks
/// `param(3)`, replies `param(4)` (0 arbitrary, 1 proper), and dropped after `param(5)` responses.
#[no_mangle]
pub extern "C" fn h_sync_rx() {
	let (k, kind, delta, mode, proper, take) = (param(0), param(1), param(2), param(3), param(4), param(5));
	let w = World::new();
	let counts = match kind {
		0 => [1; 3],
		1 => [2; 3],
		2 => [4; 3],
		3 | 4 | 5 | 8 | 9 => [2; 3],
		// nothing is asked for
		10 | 11 | 13 => [0; 3],
		12 => [0, 2, 0],
		_ => [2, 1, 3],
	};
	w.barrier(0);
	let s = Replies::any(&w, k, counts, delta, proper);
	crate::recv::chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	let ids = &s.ids[..k];
	let addr = any_u16();
	macro_rules! go {
		($e:expr, $it:ident => $next:expr) => {{
			let mut $it = match $e {
				Ok(x) => x,
				Err(_) => {
					check(false, 1, "the instruction is transmitted");
					return;
				},
			};
			for j in 0..take {
				let left = if j < k { k - j } else { 0 };
				check($it.remaining() == left, 2, "the number of outstanding responses is that of the motors not yet heard of");
				let next: Option<R> = $next;
				match next {
					Some(r) => {
						check(j < k, 3, "there is at most one response for every motor that was asked");
						s.judge(j, &r);
						check(w.m().deadlines as usize == j + 1 && !w.m().wrong_deadline, 4, "every response has a deadline of its own");
						cover(if r.is_ok() { 1 } else { 2 });
					},
					None => {
						check(j >= k, 5, "there is one response for every motor that was asked");
						check(w.m().deadlines as usize == k, 6, "nothing is read after the last response");
						cover(3);
					},
				}
			}
			check($it.remaining() == if take < k { k - take } else { 0 }, 7, "the number of outstanding responses is that of the motors not yet heard of");
		}};
	}
	macro_rules! hinted {
		($it:ident) => {{
			let n = $it.remaining();
			let (lo, hi) = $it.size_hint();
			check(lo <= n && (hi == None || hi >= Some(n)), 8, "the size hint is right");
			$it.next()
		}};
	}
	let v2 = |x: [u16; 2]| {
		let (a, b) = (x[0].to_le_bytes(), x[1].to_le_bytes());
		some(&[a[0], a[1], b[0], b[1]])
	};
	match kind {
		0 => go!(c.sync_read::<u8>(ids, addr), it => it.read_next().map(|r| res(r, |x| some(&x.to_le_bytes())))),
		1 => go!(c.sync_read::<u16>(ids, addr), it => hinted!(it).map(|r| res(r, |x| some(&x.to_le_bytes())))),
		2 => go!(c.sync_read::<[u16; 2]>(ids, addr), it => it.read_next().map(|r| res(r, v2))),
		3 => go!(c.sync_read_bytes::<Vec<u8>>(ids, addr, 2), it => hinted!(it).map(|r| res(r, |x| some(&x)))),
		4 => go!(c.sync_read_bytes_borrow::<Two>(ids, addr, 2), it => it.read_next_borrow().map(|r| res(r, |x| some(&x.0)))),
		5 => go!(c.sync_read_bytes::<Vec<u8>>(ids, addr, 2), it => it.read_next().map(|r| res(r, |x| some(&x)))),
		9 => go!(c.sync_read::<Mine>(ids, addr), it => it.read_next().map(|r| res(r, |x| some(&x.0)))),
		10 => go!(c.sync_read_bytes::<Vec<u8>>(ids, addr, 0), it => hinted!(it).map(|r| res(r, |x| some(&x)))),
		11 => go!(c.sync_read_bytes_borrow::<Nil>(ids, addr, 0), it => it.read_next_borrow().map(|r| res(r, |x| some(&x.0)))),
		_ => {
			assume(distinct(ids));
			let mut v = Vec::new();
			for j in 0..k {
				v.push(BulkReadData { motor_id: ids[j], address: addr, count: counts[j] as u16 });
			}
			match kind {
				8 => go!(c.bulk_read_bytes_borrow::<Two>(&v), it => it.read_next_borrow().map(|r| res(r, |x| some(&x.0)))),
				13 => go!(c.bulk_read_bytes_borrow::<Nil>(&v), it => it.read_next_borrow().map(|r| res(r, |x| some(&x.0)))),
				6 | 12 => go!(c.bulk_read_bytes::<Vec<u8>>(&v), it => hinted!(it).map(|r| res(r, |x| some(&x)))),
				_ => go!(c.bulk_read_bytes::<Vec<u8>>(&v), it => it.read_next().map(|r| res(r, |x| some(&x)))),
			}
		},
	}
	check(w.m().deadlines as usize == k, 9, "what was not read is read when the iterator is dropped");
	check(w.m().pos == w.m().rx_len, 10, "no reply is left behind when the iterator is dropped");
	check(w.m().writes == 1, 11, "reading responses transmits nothing");
	cover(4);
}


/// A motor that does not reply: its response is a time-out (or, if another motor's reply is in its place, an ID error),
/// there are never more responses than motors, and dropping the iterator ends.
/// `param(0)` motors, `param(1)` variant, `param(2)` replies that arrive, `param(3)` responses taken.
#[no_mangle]
pub extern "C" fn h_sync_missing() {
	let (k, kind, m, take) = (param(0), param(1), param(2), param(3));
	let w = World::new();
	w.barrier(0);
	let s = Replies::any(&w, m, [2; 3], 0, 1);
	let mut ids = s.ids;
	for j in m..k {
		ids[j] = any_u8();
	}
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	let ids = &ids[..k];
	macro_rules! go {
		($e:expr, $it:ident => $next:expr) => {{
			let mut $it = match $e {
				Ok(x) => x,
				Err(_) => {
					check(false, 1, "the instruction is transmitted");
					return;
				},
			};
			for j in 0..take {
				let next: Option<R> = $next;
				match next {
					Some(r) => {
						check(j < k, 3, "there is at most one response for every motor that was asked");
						if j < m {
							s.judge(j, &r);
						} else {
							check(r.is_timeout(), 4, "without a reply the response is a time-out");
							cover(1);
						}
					},
					None => check(j >= k, 5, "there is one response for every motor that was asked"),
				}
			}
		}};
	}
	match kind {
		0 => go!(c.sync_read::<u16>(ids, 7), it => it.read_next().map(|r| res(r, |x| some(&x.to_le_bytes())))),
		1 => go!(c.sync_read_bytes::<Vec<u8>>(ids, 7, 2), it => it.read_next().map(|r| res(r, |x| some(&x)))),
		_ => {
			assume(distinct(ids));
			let mut v = Vec::new();
			for j in 0..k {
				v.push(BulkReadData { motor_id: ids[j], address: 7, count: 2 });
			}
			go!(c.bulk_read_bytes::<Vec<u8>>(&v), it => it.read_next().map(|r| res(r, |x| some(&x))))
		},
	}
	check(w.m().pos == w.m().rx_len, 6, "no reply is left behind when the iterator is dropped");
	check(w.m().deadlines as usize <= k, 7, "at most one response for every motor is waited for");
	cover(2);
}

/// A damaged reply (`param(1)` as for `h_scan_damaged`) is the response of its motor, and no more: variant `param(0)`,
/// dropped after `param(2)` responses.
#[no_mangle]
pub extern "C" fn h_sync_damaged() {
	let (kind, how, take) = (param(0), param(1), param(2));
	let w = World::new();
	w.barrier(0);
	let ids = [any_u8(), any_u8(), any_u8()];
	let x = [any_u8(), 2];
	w.feed(spec::status(ids[0], 0, &x).s());
	damaged(&w, how);
	if how == 2 {
		w.feed(spec::status(ids[1], 0, &x).s());
	}
	w.feed(spec::status(ids[2], 0, &x).s());
	crate::recv::chunk(&w, 3);
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	macro_rules! go {
		($e:expr, $it:ident => $next:expr) => {{
			let mut $it = match $e {
				Ok(x) => x,
				Err(_) => {
					check(false, 1, "the instruction is transmitted");
					return;
				},
			};
			for j in 0..take {
				let next: Option<R> = $next;
				match next {
					Some(r) => {
						r.obs();
						if j == 1 && how != 2 {
							check(!r.is_ok(), 2, "a damaged reply is reported as an error");
						} else {
							check(r.same(&ok(ids[j], false, &x)), 3, "the replies in front of a damaged one and behind it are the responses of their motors");
						}
					},
					None => check(false, 4, "there is one response for every motor that was asked"),
				}
			}
			check($it.remaining() == 3 - take, 5, "the number of outstanding responses is that of the motors not yet heard of");
		}};
	}
	match kind {
		0 => go!(c.sync_read::<u16>(&ids, 7), it => it.read_next().map(|r| res(r, |x| some(&x.to_le_bytes())))),
		1 => go!(c.sync_read_bytes::<Vec<u8>>(&ids, 7, 2), it => it.read_next().map(|r| res(r, |x| some(&x)))),
		_ => {
			assume(distinct(&ids));
			let v = ids.map(|i| BulkReadData { motor_id: i, address: 7, count: 2 });
			go!(c.bulk_read_bytes::<Vec<u8>>(&v), it => it.read_next().map(|r| res(r, |x| some(&x))))
		},
	}
	check(w.m().pos == w.m().rx_len, 6, "no reply is left behind when the iterator is dropped");
	check(w.m().deadlines == 3, 7, "one response for every motor is waited for");
	cover(1);
}

/// Arbitrary bytes and read failures in answer to a multi-motor read: no panic, no endless loop, also when dropped.
/// `param(0)` arbitrary bytes, `param(1)` variant, `param(2)` leading bytes of a header, `param(3)` chunks, `param(4)`
/// responses taken, `param(5)` 1: every read fails from an arbitrary one on.
#[no_mangle]
pub extern "C" fn h_sync_rob() {
	let (n, kind, pre, mode, take) = (param(0), param(1), param(2), param(3), param(4));
	let w = World::new();
	w.feed(&[0xFF, 0xFF, 0xFD, 0x00][..pre]);
	w.feed_any(n);
	crate::recv::chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 32], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	if param(5) == 1 {
		w.m().fault_kind = b'R';
		w.m().fault_at = choose(3);
		w.m().fault_err = E::Io(5);
		w.m().fault_forever = true;
		w.m().fault_on = true;
	}
	let ids = [1u8, 2, 3];
	macro_rules! go {
		($e:expr, $it:ident => $next:expr) => {{
			if let Ok(mut $it) = $e {
				for j in 0..take {
					let next: Option<R> = $next;
					match next {
						Some(r) => {
							r.obs();
							check(j < 3 || kind == 3, 3, "there is at most one response for every motor that was asked");
							cover(if r.is_ok() { 1 } else { 2 });
						},
						None => check(j >= 3 || kind == 3, 5, "there is one response for every motor that was asked"),
					}
				}
			}
		}};
	}
	match kind {
		0 => go!(c.sync_read::<u16>(&ids, 7), it => it.read_next().map(|r| res(r, |x| some(&x.to_le_bytes())))),
		1 => go!(c.sync_read_bytes::<Vec<u8>>(&ids, 7, 2), it => it.read_next().map(|r| res(r, |x| some(&x)))),
		2 => {
			let v = [1u8, 2, 3].map(|i| BulkReadData { motor_id: i, address: 7, count: 1 });
			go!(c.bulk_read_bytes::<Vec<u8>>(&v), it => it.read_next().map(|r| res(r, |x| some(&x))));
		},
		_ => go!(c.scan(), it => scanned(&mut it)),
	}
	cover(3);
}

/// Faults of the serial port during a multi-motor operation (variant `param(0)`): transmission number 0, discard number
/// 0, or read number `choose` fails, once or from then on. The failure is reported with the error of the serial port, at
/// most where it happened, and nothing is transmitted after it.
#[no_mangle]
pub extern "C" fn h_fault_multi() {
	let kind = param(0);
	let w = World::new();
	let ids = [any_u8(), any_u8(), any_u8()];
	assume(distinct(&ids));
	w.barrier(0);
	let n = if kind == 3 { 3 } else { 2 };
	for j in 0..3 {
		let x = [any_u8(), 2, 3];
		w.feed(spec::status(ids[j], 0, &x[..n]).s());
	}
	w.m().chunk = Chunk::Max(6);
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	let fk = [b'D', b'W', b'R'][choose(3) as usize];
	let err = if choose(2) == 0 { E::Io(any_u8()) } else { E::Timeout };
	w.m().calls = 0;
	w.m().fault_kind = fk;
	w.m().fault_at = if fk == b'R' { choose(7) } else { 0 };
	w.m().fault_err = err;
	w.m().fault_forever = choose(2) == 1;
	w.m().fault_on = true;
	let forever = w.m().fault_forever;
	let take = choose(5) as usize;
	let sent = |res: R| match fk {
		b'D' => {
			check(res.same(&R::WDiscard(err)), 1, "a failure to discard old input is reported as such");
			check(w.m().tx_len == 0 && w.m().reads == 0, 2, "nothing is sent after a failure to discard old input");
			cover(1);
		},
		b'W' => {
			check(res.same(&R::WWrite(err)), 3, "a failure to write is reported as such");
			check(w.m().reads == 0, 4, "nothing is read after a failure to write");
			cover(2);
		},
		_ => check(false, 5, "an instruction that is written is not reported as a failure"),
	};
	macro_rules! go {
		($e:expr, $it:ident => $next:expr) => {{
			match $e {
				Ok(mut $it) => {
					check(fk == b'R', 6, "a failure of the serial port is reported");
					let mut failed = 0;
					for _ in 0..take {
						let hits = w.m().fault_hits;
						let next: Option<R> = $next;
						let hit = w.m().fault_hits - hits;
						match next {
							Some(r) => {
								r.obs();
								check(hit <= 1, 7, "a response ends with the first failure to read");
								if hit == 1 {
									check(r.same(&R::Io(err)), 8, "a failure to read is reported in the response that it concerns");
									failed += 1;
									cover(3);
								} else if failed == 0 {
									check(r.is_ok(), 9, "without a failure the response is the reply of the motor");
									cover(4);
								}
							},
							None => {
								check(hit == 0 || (err == E::Timeout && kind == 3), 10, "a failure to read is reported");
								cover(5);
							},
						}
					}
				},
				Err(e) => sent(werr(e)),
			}
		}};
	}
	match kind {
		0 => go!(c.sync_read::<u16>(&ids, 7), it => it.read_next().map(|r| res(r, |x| some(&x.to_le_bytes())))),
		1 => go!(c.sync_read_bytes::<Vec<u8>>(&ids, 7, 2), it => it.read_next().map(|r| res(r, |x| some(&x)))),
		2 => {
			let v = ids.map(|i| BulkReadData { motor_id: i, address: 7, count: 2 });
			go!(c.bulk_read_bytes::<Vec<u8>>(&v), it => it.read_next().map(|r| res(r, |x| some(&x))));
		},
		3 => go!(c.scan(), it => scanned(&mut it)),
		12 => {
			let v = ids.map(|i| BulkReadData { motor_id: i, address: 7, count: 2 });
			go!(c.bulk_read_bytes_borrow::<Two>(&v), it => it.read_next_borrow().map(|r| res(r, |x| some(&x.0))));
		},
		13 => go!(c.sync_read_bytes_borrow::<Two>(&ids, 7, 2), it => it.read_next_borrow().map(|r| res(r, |x| some(&x.0)))),
		_ => {
			let e = match kind {
				4 => c.sync_write(5, &ids.map(|i| SyncWriteData { motor_id: i, data: 77u16 })),
				5 => c.sync_write_bytes(5, 2, &ids.map(|i| SyncWriteData { motor_id: i, data: [1, 2] })),
				6 => c.bulk_write(&ids.map(|i| BulkWriteData { motor_id: i, address: 9, data: [1, 2, 3] })),
				7 => c.broadcast_action(),
				8 => c.broadcast_reboot(),
				9 => c.broadcast_factory_reset(instructions::FactoryResetKind::KeepId),
				10 => c.broadcast_clear_revolution_counter(),
				_ => c.broadcast_clear_error(),
			};
			match e {
				Ok(()) => check(fk == b'R', 6, "a failure of the serial port is reported"),
				Err(e) => sent(werr(e)),
			}
		},
	}
	if fk == b'R' {
		check(w.m().writes == 1, 11, "nothing is transmitted again after a failure to read");
		if forever && w.m().fault_hits > 0 {
			cover(6);
		}
	}
	cover(7);
}

/// Faults of the serial port of a device. `param(0)`: 0 reading an instruction, 1 writing a status packet.
#[no_mangle]
pub extern "C" fn h_fault_device() {
	let w = World::new();
	let id = any_u8();
	let x = any_u8();
	w.feed(spec::frame(id, spec::WRITE, &[1, 0, x]).s());
	w.m().chunk = Chunk::Max(4);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut d = w.device(&mut r, &mut b);
	let err = if choose(2) == 0 { E::Io(any_u8()) } else { E::Timeout };
	w.m().calls = 0;
	w.m().fault_err = err;
	w.m().fault_on = true;
	if param(0) == 0 {
		w.m().fault_kind = b'R';
		w.m().fault_at = choose(6);
		let owned = choose(2) == 1;
		let res = if owned {
			d.read_owned(Duration::from_millis(3)).map(|i| (i.id, matches!(i.instruction, Instructions::Write { .. })))
		} else {
			d.read(Duration::from_millis(3)).map(|i| (i.id, matches!(i.instruction, Instructions::Write { .. })))
		};
		match res {
			Ok((i, y)) => {
				check(w.m().fault_hits == 0, 1, "a failure to read is reported");
				check(i == id && y, 2, "without a failure the instruction is received");
				cover(1);
			},
			Err(e) => {
				check(rerr(e).same(&R::Io(err)) && w.m().fault_hits == 1, 3, "a failure to read is reported as such");
				cover(2);
			},
		}
		check(w.m().tx_len == 0, 4, "reading transmits nothing");
	} else {
		let fk = [b'D', b'W', b'R'][choose(3) as usize];
		w.m().fault_kind = fk;
		let e = any_u8();
		let res = match choose(3) {
			0 => d.write_status_ok(id),
			1 => d.write_status_error(id, e),
			_ => d.write_status(id, e, 1, |b| {
				b[0] = x;
				Ok(())
			}),
		};
		match res {
			Ok(()) => {
				check(fk == b'R' && w.m().reads == 0, 5, "a failure of the serial port is reported");
				cover(3);
			},
			Err(e) => {
				let want = if fk == b'D' { R::WDiscard(err) } else { R::WWrite(err) };
				check(fk != b'R' && werr(e).same(&want), 6, "a failure to write is reported as such");
				check(w.m().tx_len == 0, 7, "nothing is sent after a failure");
				cover(4);
			},
		}
	}
}

fn scanned(it: &mut dynamixel2::instructions::Scan<Port, &mut [u8]>) -> Option<R> {
	it.scan_next().map(|r| {
		res(r, |x| {
			let m = x.model.to_le_bytes();
			some(&[m[0], m[1], x.firmware])
		})
	})
}

/// Scan: `param(0)` arbitrary replies with `param(1)` parameters, chunks `param(2)`, dropped after `param(3)` responses.
#[no_mangle]
pub extern "C" fn h_scan() {
	let (k, np, mode, take) = (param(0), param(1), param(2), param(3));
	let w = World::new();
	w.barrier(0);
	let s = Replies::any(&w, k, [np; 3], 0, 0);
	crate::recv::chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	{
		let mut it = match c.scan() {
			Ok(it) => it,
			Err(_) => {
				check(false, 1, "the ping is transmitted");
				return;
			},
		};
		check(w.sent_is(spec::frame(spec::BROADCAST, spec::PING, &[]).s()), 2, "a scan transmits a ping to the broadcast ID");
		for j in 0..take {
			let next = if j % 2 == 0 { scanned(&mut it) } else {
				it.next().map(|r| res(r, |x| {
					let m = x.model.to_le_bytes();
					some(&[m[0], m[1], x.firmware])
				}))
			};
			match next {
				Some(r) => {
					check(j < k, 3, "a scan reports no more motors than replied");
					// any motor may reply
					r.obs();
					judge(&r, s.rid[j], 3, s.rid[j], s.err[j], s.d[j].s(), 20);
					cover(if r.is_ok() { 1 } else { 2 });
				},
				None => {
					check(j >= k, 4, "a scan reports every motor that replied");
					cover(3);
				},
			}
		}
	}
	check(w.m().pos == w.m().rx_len, 5, "no reply is left behind when the scan is dropped");
	check(!w.m().wrong_deadline, 6, "every reply has a deadline of its own");
	check(w.m().writes == 1, 7, "a scan transmits one packet");
	cover(4);
}

/// A reply that is damaged, as for `h_scan_damaged`.
fn damaged(w: &World, kind: usize) {
	let (a, b2) = (any_u8(), any_u8());
	match kind {
		0 => {
			let mut f = spec::status(a, 0, &[b2, 2, 3]);
			let at = pick(7, f.n - 1);
			let x = any_u8();
			assume(x != 0);
			f.b[at] ^= x;
			w.feed(f.s());
		},
		1 => {
			let i = any_u8();
			assume(i != spec::STATUS);
			w.feed(spec::frame(a, i, &[0, b2, 2, 3]).s());
		},
		2 => {
			assume((a != 0xFF) & (b2 != 0xFF));
			w.feed(&[a, 0xFF, 0xFF, 0xFD, 0x01, b2]);
		},
		_ => w.feed(&[0xFF, 0xFF, 0xFD, 0x00, a, 1, 0]),
	}
}

/// A scan is dropped after `param(1)` calls, with a damaged reply (`param(0)` as for `h_scan_damaged`) between two
/// others: none of them is left behind.
#[no_mangle]
pub extern "C" fn h_scan_damaged_drop() {
	let (kind, take) = (param(0), param(1));
	let w = World::new();
	w.barrier(0);
	let (id, x) = (any_u8(), any_u8());
	w.feed(spec::status(id, 0, &[x, 0, 1]).s());
	damaged(&w, kind);
	w.feed(spec::status(any_u8(), 0, &[any_u8(), 5, 6]).s());
	// what is not waited for is not read either
	crate::recv::chunk(&w, 3);
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	match c.scan() {
		Ok(mut it) => {
			for j in 0..take {
				match scanned(&mut it) {
					Some(r) => {
						r.obs();
						if j == 0 {
							check(r.same(&ok(id, false, &[x, 0, 1])), 1, "the replies in front of a damaged one are found");
						}
					},
					None => check(false, 2, "a damaged reply does not end the scan"),
				}
			}
		},
		Err(_) => check(false, 3, "the ping is transmitted"),
	}
	check(w.m().pos == w.m().rx_len, 4, "no reply is left behind when the scan is dropped");
	check(w.m().writes == 1, 5, "a scan transmits one packet");
	cover(1);
}

/// A scan meets a damaged reply or a packet that is no status packet: it is reported, and the replies behind it are
/// still found. `param(0)` 0: wrong checksum, 1: instruction packet, 2: garbage, 3: length 1
#[no_mangle]
pub extern "C" fn h_scan_damaged() {
	let kind = param(0);
	let w = World::new();
	w.barrier(0);
	damaged(&w, kind);
	let (id, x, y, z) = (any_u8(), any_u8(), any_u8(), any_u8());
	w.feed(spec::status(id, 0, &[x, y, z]).s());
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	if let Ok(mut it) = c.scan() {
		if kind != 2 {
			match scanned(&mut it) {
				Some(r) => {
					r.obs();
					check(!r.is_ok(), 1, "a damaged reply is reported as an error");
				},
				None => check(false, 2, "a damaged reply does not end the scan"),
			}
		}
		match scanned(&mut it) {
			Some(r) => {
				r.obs();
				check(r.same(&ok(id, false, &[x, y, z])), 3, "the replies behind a damaged one are found");
			},
			None => check(false, 4, "the replies behind a damaged one are found"),
		}
		check(scanned(&mut it).is_none(), 5, "the scan ends when no more replies come");
		cover(1);
	};
}

/// The timeouts of a scan, and of single responses, as a function of the baud rate: see `time`.
pub fn scan_timeout(baud: u32) -> Duration {
	crate::time::transfer(14, baud) * 253 + Duration::from_millis(34)
}
