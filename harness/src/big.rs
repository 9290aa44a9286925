//! Long packets and many motors: sizes at which a length, a count or an index leaves the range of a byte.

use crate::ops::*;
use crate::rt::*;
use crate::spec;
use crate::world::E;
use alloc::vec;
use alloc::vec::Vec;
use core::cell::UnsafeCell;
use core::time::Duration;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, SyncWriteData};
use dynamixel2::*;

/// A serial port that records whole packets of any length and delivers any number of bytes.
pub struct Rec {
	tx: Vec<u8>,
	writes: u32,
	rx: Vec<u8>,
	pos: usize,
	chunk: usize,
	deadlines: u32,
	reads: u32,
	/// Nothing may be transmitted.
	no_tx: bool,
}
pub struct Line(UnsafeCell<Rec>);
impl Line {
	fn new() -> Line {
		Line(UnsafeCell::new(Rec { tx: Vec::new(), writes: 0, rx: Vec::new(), pos: 0, chunk: usize::MAX, deadlines: 0, reads: 0, no_tx: false }))
	}
	#[allow(clippy::mut_from_ref)]
	fn m(&self) -> &mut Rec {
		unsafe { &mut *self.0.get() }
	}
	fn client(&self, r: usize, w: usize) -> Client<Tty<'_>, Vec<u8>> {
		match Client::with_buffers(Tty(self), vec![0; r], vec![0; w]) {
			Ok(c) => c,
			Err(_) => {
				check(false, 990, "creating a client failed");
				loop {}
			},
		}
	}
	fn device(&self, r: usize, w: usize) -> Device<Tty<'_>, Vec<u8>> {
		match Device::with_buffers(Tty(self), vec![0; r], vec![0; w]) {
			Ok(c) => c,
			Err(_) => {
				check(false, 991, "creating a device failed");
				loop {}
			},
		}
	}
}
pub struct Tty<'a>(&'a Line);
impl<'a> dynamixel2::SerialPort for Tty<'a> {
	type Error = E;
	type Instant = Duration;
	fn baud_rate(&self) -> Result<u32, E> {
		Ok(1_000_000)
	}
	fn set_baud_rate(&mut self, _: u32) -> Result<(), E> {
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), E> {
		Ok(())
	}
	fn read(&mut self, buf: &mut [u8], _: &Duration) -> Result<usize, E> {
		let m = self.0.m();
		m.reads += 1;
		let mut n = m.rx.len() - m.pos;
		if n == 0 {
			return Err(E::Timeout);
		}
		if n > buf.len() {
			n = buf.len();
		}
		if n > m.chunk {
			n = m.chunk;
		}
		buf[..n].copy_from_slice(&m.rx[m.pos..][..n]);
		m.pos += n;
		Ok(n)
	}
	fn write_all(&mut self, b: &[u8]) -> Result<(), E> {
		let m = self.0.m();
		check(!m.no_tx, 994, "nothing is transmitted for arguments that are refused with a panic");
		m.writes += 1;
		m.tx.extend_from_slice(b);
		Ok(())
	}
	fn make_deadline(&self, t: Duration) -> Duration {
		self.0.m().deadlines += 1;
		t
	}
	fn is_timeout_error(e: &E) -> bool {
		*e == E::Timeout
	}
}

/// The reference encoding of a packet of any length, added to `o`.
fn frame(o: &mut Vec<u8>, id: u8, ins: u8, params: &[u8]) {
	let start = o.len();
	o.extend_from_slice(&[0xFF, 0xFF, 0xFD, 0x00, id, 0, 0, ins]);
	let (mut p1, mut p2) = (ins, 0u8);
	for &x in params {
		o.push(x);
		if (p2 == 0xFF) & (p1 == 0xFF) & (x == 0xFD) {
			o.push(0xFD);
		}
		p2 = p1;
		p1 = x;
	}
	let l = o.len() - start - 7 + 2;
	o[start + 5] = l as u8;
	o[start + 6] = (l >> 8) as u8;
	let c = spec::crc(0, &o[start..]);
	o.push(c as u8);
	o.push((c >> 8) as u8);
}
fn status(o: &mut Vec<u8>, id: u8, err: u8, params: &[u8]) {
	let mut p = Vec::with_capacity(params.len() + 1);
	p.push(err);
	p.extend_from_slice(params);
	frame(o, id, spec::STATUS, &p);
}

const EVERYWHERE: usize = 0xFFFF;

/// `n` parameters, the first one and the last one arbitrary; in between fixed bytes, with a byte pattern that needs
/// stuffing at position `at` (`at` = 0: none; [`EVERYWHERE`]: one after the other).
fn filled(n: usize, at: usize) -> Vec<u8> {
	let mut p = vec![0x5A; n];
	if at == EVERYWHERE {
		for (j, x) in p.iter_mut().enumerate() {
			*x = [0xFF, 0xFF, 0xFD][j % 3];
		}
	} else if at > 0 && at + 3 < n {
		p[at] = 0xFF;
		p[at + 1] = 0xFF;
		p[at + 2] = 0xFD;
	}
	if n > 0 {
		p[n - 1] = any_u8();
	}
	if n > 1 {
		p[0] = any_u8();
	}
	p
}

/// Transmission of `param(0)` to `param(1)` parameters, `param(2)` 0: instruction, 1: status; stuffing at `param(3)`.
#[no_mangle]
pub extern "C" fn h_big_tx() {
	let n = pick(param(0), param(1));
	let l = Line::new();
	let id = any_u8();
	let x = any_u8();
	let p = filled(n, param(3));
	let mut want = Vec::new();
	let enc = |o: &mut [u8]| {
		check(o.len() == n, 1, "the encoder gets a buffer of the size of the parameters");
		o.copy_from_slice(&p);
		Ok(())
	};
	let good = if param(2) == 0 {
		frame(&mut want, id, x, &p);
		l.client(32, want.len()).write_instruction(id, x, n, enc).is_ok()
	} else {
		status(&mut want, id, x, &p);
		l.device(32, want.len()).write_status(id, x, n, enc).is_ok()
	};
	check(good, 2, "writing a packet that fits the buffer succeeds");
	check(l.m().writes == 1, 3, "a packet is transmitted in exactly one write");
	check(eq(&l.m().tx, &want), 4, "the transmitted packet is the reference encoding");
	cover(1);
}

/// Reception of `param(0)` to `param(1)` parameters, `param(2)` 0: instruction, 1: status; stuffing at `param(3)`, in
/// pieces of `param(4)` bytes (0: all at once). A second packet behind the first is received as well.
#[no_mangle]
pub extern "C" fn h_big_rx() {
	let n = pick(param(0), param(1));
	let l = Line::new();
	let (id, id2) = (any_u8(), any_u8());
	let x = any_u8();
	let p = filled(n, param(3));
	let mut rx = Vec::new();
	if param(4) > 0 {
		l.m().chunk = param(4);
	}
	if param(2) == 0 {
		assume(x != spec::STATUS);
		frame(&mut rx, id, x, &p);
		let cap = if rx.len() < 16 { 16 } else { rx.len() };
		frame(&mut rx, id2, 2, &[1, 2, 3, 4]);
		l.m().rx = rx;
		let mut d = l.device(cap, 32);
		match d.read_raw_instruction_timeout(Duration::from_millis(10)) {
			Ok(i) => {
				check((i.packet_id() == id) & (i.instruction_id() == x), 1, "ID and instruction are those of the packet");
				check(i.parameters().len() == n && eq(i.parameters(), &p), 2, "the parameters are those of the packet");
				cover(1);
			},
			Err(e) => {
				rerr(e).obs();
				check(false, 3, "a valid packet that fits the receive buffer is received");
			},
		}
		match d.read_raw_instruction_timeout(Duration::from_millis(10)) {
			Ok(i) => check((i.packet_id() == id2) & eq(i.parameters(), &[1, 2, 3, 4]), 4, "the packet behind a long one is received"),
			Err(_) => check(false, 4, "the packet behind a long one is received"),
		};
	} else {
		assume(x & 0x7F == 0);
		status(&mut rx, id, x, &p);
		let cap = if rx.len() < 16 { 16 } else { rx.len() };
		status(&mut rx, id2, 0, &[1, 2, 3, 4]);
		l.m().rx = rx;
		let mut c = l.client(cap, 32);
		match c.read_status_response(n as u16) {
			Ok(s) => {
				check((s.packet_id() == id) & (s.error() == x), 5, "ID and error field are those of the packet");
				check(s.parameters().len() == n && eq(s.parameters(), &p), 6, "the parameters are those of the packet");
				cover(2);
			},
			Err(e) => {
				rerr(e).obs();
				check(false, 7, "a valid packet that fits the receive buffer is received");
			},
		}
		match c.read_status_response(4) {
			Ok(s) => check((s.packet_id() == id2) & eq(s.parameters(), &[1, 2, 3, 4]), 8, "the packet behind a long one is received"),
			Err(_) => check(false, 8, "the packet behind a long one is received"),
		};
	}
}

/// A read of `param(0)` to `param(1)` bytes from one motor: the motor's data is returned, whatever the number of bytes;
/// `param(2)` surplus (1) or missing (2) bytes in the reply are refused.
#[no_mangle]
pub extern "C" fn h_big_read() {
	let n = pick(param(0), param(1));
	let m = match param(2) {
		0 => n,
		1 => n + [1, 255, 256][choose(3) as usize],
		_ => n - [1, 255, 256][choose(3) as usize],
	};
	let l = Line::new();
	let id = any_u8();
	assume(id != 0xFE);
	let p = filled(m, 0);
	let mut rx = Vec::new();
	status(&mut rx, id, 0, &p);
	l.m().rx = rx;
	let mut c = l.client(n + 512, 64);
	let addr = any_u16();
	let r = c.read_bytes::<Vec<u8>>(id, addr, n as u16);
	let mut want = Vec::new();
	frame(&mut want, id, spec::READ, &[addr as u8, (addr >> 8) as u8, n as u8, (n >> 8) as u8]);
	check(eq(&l.m().tx, &want), 1, "the read instruction names the number of bytes");
	match r {
		Ok(r) => {
			check(n == m, 2, "a reply of another length than asked for is refused");
			check(r.data.len() == n && eq(&r.data, &p), 3, "the data is that of the reply");
			cover(1);
		},
		Err(e) => {
			check(n != m, 4, "a reply of the length asked for is accepted");
			match terr(e) {
				R::Count { actual, expected, .. } => check(actual == m && expected == n, 5, "the error names the actual and the expected length"),
				_ => check(false, 5, "the error names the actual and the expected length"),
			}
			cover(2);
		},
	}
}

/// Instruction `param(0)` for `param(1)` to `param(2)` motors: 0 sync read, 1 sync read of bytes, 2 sync write, 3 sync
/// write of bytes, 4 bulk read, 5 bulk write. `param(3)` IDs, starting at one of several places, are arbitrary; the others
/// are distinct. Everything else is arbitrary, but below 0x80, so that nothing needs stuffing.
#[no_mangle]
pub extern "C" fn h_many_tx() {
	let kind = param(0);
	let k = pick(param(1), param(2));
	let l = Line::new();
	let small = || any_u8() & 0x7F;
	let mut ids = Vec::with_capacity(k);
	for j in 0..k {
		ids.push((j % 253) as u8);
	}
	let s = if param(3) < k { param(3) } else { k };
	if s > 0 {
		// at the beginning, at the end, or the first and the last ones
		let at = choose(3);
		for j in 0..s {
			let i = match at {
				0 => j,
				1 => k - 1 - j,
				_ => if j % 2 == 0 { j / 2 } else { k - 1 - j / 2 },
			};
			ids[i] = any_u8();
		}
	}
	let mut c = l.client(32, 8 * k + 32);
	let mut p: Vec<u8> = Vec::new();
	let (a0, a1) = (small(), small());
	let addr = a0 as u16 | (a1 as u16) << 8;
	if kind >= 4 {
		let mut seen = [false; 256];
		let mut dup = false;
		if s == 0 {
			for &i in &ids {
				dup |= seen[i as usize];
				seen[i as usize] = true;
			}
		} else {
			for i in 0..k {
				for j in i + 1..k {
					dup |= ids[i] == ids[j];
				}
			}
		}
		if dup {
			l.m().no_tx = true;
			allow_panic(true);
			cover(2);
		}
		let good = if kind == 4 {
			let mut v = Vec::with_capacity(k);
			for j in 0..k {
				let (x, y) = if j < 2 || j + 2 > k { (small(), small()) } else { (3, 0) };
				p.extend_from_slice(&[ids[j], a0, a1, x, y]);
				v.push(BulkReadData { motor_id: ids[j], address: addr, count: x as u16 | (y as u16) << 8 });
			}
			let sent = match c.bulk_read_bytes::<Vec<u8>>(&v) {
				Ok(it) => {
					check(it.remaining() == k, 1, "as many responses are outstanding as motors were asked");
					core::mem::forget(it);
					true
				},
				Err(_) => false,
			};
			sent
		} else {
			let mut v = Vec::with_capacity(k);
			for j in 0..k {
				let x = small();
				p.extend_from_slice(&[ids[j], a0, a1, 2, 0, x, 9]);
				v.push(BulkWriteData { motor_id: ids[j], address: addr, data: [x, 9] });
			}
			c.bulk_write(&v).is_ok()
		};
		check(!dup, 2, "an ID that is used twice is refused with a panic");
		check(good, 3, "the instruction is transmitted if it fits the write buffer");
	} else if kind < 2 {
		let (c0, c1) = if kind == 0 { (2, 0) } else { (small(), small()) };
		p.extend_from_slice(&[a0, a1, c0, c1]);
		p.extend_from_slice(&ids);
		if kind == 0 {
			match c.sync_read::<u16>(&ids, addr) {
				Ok(it) => {
					check(it.remaining() == k, 1, "as many responses are outstanding as motors were asked");
					core::mem::forget(it);
				},
				Err(_) => check(false, 3, "the instruction is transmitted if it fits the write buffer"),
			}
		} else {
			match c.sync_read_bytes::<Vec<u8>>(&ids, addr, c0 as u16 | (c1 as u16) << 8) {
				Ok(it) => {
					check(it.remaining() == k, 1, "as many responses are outstanding as motors were asked");
					core::mem::forget(it);
				},
				Err(_) => check(false, 3, "the instruction is transmitted if it fits the write buffer"),
			}
		}
	} else {
		p.extend_from_slice(&[a0, a1, 2, 0]);
		let mut v = Vec::with_capacity(k);
		let mut u = Vec::with_capacity(k);
		for j in 0..k {
			let (x, y) = if j < 2 || j + 2 > k { (small(), small()) } else { (j as u8 & 0x7F, 1) };
			p.extend_from_slice(&[ids[j], x, y]);
			v.push(SyncWriteData { motor_id: ids[j], data: x as u16 | (y as u16) << 8 });
			u.push(SyncWriteData { motor_id: ids[j], data: [x, y] });
		}
		let good = if kind == 2 { c.sync_write(addr, &v).is_ok() } else { c.sync_write_bytes(addr, 2, &u).is_ok() };
		check(good, 3, "the instruction is transmitted if it fits the write buffer");
	}
	let ins = [spec::SYNC_READ, spec::SYNC_READ, spec::SYNC_WRITE, spec::SYNC_WRITE, spec::BULK_READ, spec::BULK_WRITE][kind];
	let mut want = Vec::new();
	frame(&mut want, 0xFE, ins, &p);
	check(l.m().writes == 1, 4, "one packet is transmitted for all motors");
	check(eq(&l.m().tx, &want), 5, "the instruction packet is the one of the protocol");
	cover(1);
}

/// Responses of `param(1)` motors, of which every one replies with two bytes; the replies of the first, the last and a few
/// in between are arbitrary. Variant `param(0)`: 0 sync read, 1 sync read of bytes, 2 bulk read. Dropped after `param(2)`.
#[no_mangle]
pub extern "C" fn h_many_rx() {
	let (kind, k, take) = (param(0), param(1), param(2));
	let l = Line::new();
	let mut ids = Vec::with_capacity(k);
	let mut rid = Vec::with_capacity(k);
	let mut val = Vec::with_capacity(k);
	let mut rx = Vec::new();
	for j in 0..k {
		let id = (j % 253) as u8;
		ids.push(id);
		let free = j == 0 || j + 1 == k || j == 127 || j == 128 || j == 254 || j == 255;
		let (r, x) = if free { (any_u8(), any_u8()) } else { (id, j as u8) };
		rid.push(r);
		val.push(x);
		status(&mut rx, r, 0, &[x, 7]);
	}
	l.m().rx = rx;
	let mut c = l.client(64, 8 * k + 64);
	macro_rules! go {
		($e:expr, $v:expr) => {{
			let mut it = match $e {
				Ok(x) => x,
				Err(_) => {
					check(false, 1, "the instruction is transmitted");
					return;
				},
			};
			for j in 0..take {
				let left = if j < k { k - j } else { 0 };
				check(it.remaining() == left, 2, "the number of outstanding responses is that of the motors not yet heard of");
				match it.read_next() {
					Some(Ok(r)) => {
						check(j < k && (rid[j] == ids[j]) & (r.motor_id == ids[j]), 3, "a response of another motor is refused");
						check($v(r.data) == val[j] as u16 | 0x700, 4, "the data is that of the reply");
						cover(1);
					},
					Some(Err(e)) => {
						check(j < k && rid[j] != ids[j], 5, "the response of the motor that was asked is accepted");
						check(rerr(e).same(&R::Id { actual: rid[j], expected: Some(ids[j]) }), 6, "a response of another motor is reported as such");
						cover(2);
					},
					None => {
						check(j >= k, 7, "there is one response for every motor that was asked");
						cover(3);
					},
				}
			}
			check(it.remaining() == if take < k { k - take } else { 0 }, 2, "the number of outstanding responses is that of the motors not yet heard of");
		}};
	}
	let b = |x: Vec<u8>| {
		check(x.len() == 2, 8, "the data has the length that was asked for");
		x[0] as u16 | (x[1] as u16) << 8
	};
	match kind {
		0 => go!(c.sync_read::<u16>(&ids, 7), |x: u16| x),
		1 => go!(c.sync_read_bytes::<Vec<u8>>(&ids, 7, 2), b),
		_ => {
			let v: Vec<_> = ids.iter().map(|&i| BulkReadData { motor_id: i, address: 7, count: 2 }).collect();
			go!(c.bulk_read_bytes::<Vec<u8>>(&v), b)
		},
	}
	check(l.m().pos == l.m().rx.len(), 9, "no reply is left behind when the iterator is dropped");
	check(l.m().deadlines as usize == k, 10, "what was not read is read when the iterator is dropped");
	cover(4);
}

/// Device: multi-motor instructions with `param(1)` to `param(2)` motors arrive as they were sent. Variant `param(0)`:
/// 0 sync read, 1 sync write, 2 bulk read, 3 bulk write; `param(3)` 1: owned.
#[no_mangle]
pub extern "C" fn h_many_device() {
	let kind = param(0);
	let k = pick(param(1), param(2));
	let (l, v) = (Line::new(), Line::new());
	let small = || any_u8() & 0x7F;
	let mut ids = Vec::with_capacity(k);
	let mut xs = Vec::with_capacity(k);
	for j in 0..k {
		let edge = j < 2 || j + 2 > k;
		ids.push((j % 253) as u8);
		xs.push(if edge { small() } else { j as u8 & 0x7F });
	}
	let (a0, a1) = (small(), small());
	let addr = a0 as u16 | (a1 as u16) << 8;
	let mut c = l.client(32, 8 * k + 32);
	let mut p: Vec<u8> = Vec::new();
	let good = match kind {
		0 => {
			p.extend_from_slice(&ids);
			let sent = match c.sync_read_bytes::<Vec<u8>>(&ids, addr, 300) {
				Ok(it) => {
					core::mem::forget(it);
					true
				},
				Err(_) => false,
			};
			sent
		},
		1 => {
			let mut u = Vec::with_capacity(k);
			for j in 0..k {
				p.extend_from_slice(&[ids[j], xs[j], 1]);
				u.push(SyncWriteData { motor_id: ids[j], data: [xs[j], 1] });
			}
			c.sync_write_bytes(addr, 2, &u).is_ok()
		},
		2 => {
			let mut u = Vec::with_capacity(k);
			for j in 0..k {
				p.extend_from_slice(&[ids[j], a0, a1, xs[j], 2]);
				u.push(BulkReadData { motor_id: ids[j], address: addr, count: xs[j] as u16 | 0x200 });
			}
			let sent = match c.bulk_read_bytes::<Vec<u8>>(&u) {
				Ok(it) => {
					core::mem::forget(it);
					true
				},
				Err(_) => false,
			};
			sent
		},
		_ => {
			let mut u = Vec::with_capacity(k);
			for j in 0..k {
				p.extend_from_slice(&[ids[j], a0, a1, 1, 0, xs[j]]);
				u.push(BulkWriteData { motor_id: ids[j], address: addr, data: [xs[j]] });
			}
			c.bulk_write(&u).is_ok()
		},
	};
	check(good, 1, "the instruction is transmitted if it fits the write buffer");
	v.m().rx.extend_from_slice(&l.m().tx);
	let n = v.m().rx.len();
	let mut d = v.device(n, 32);
	macro_rules! judge {
		($e:expr) => {
			match $e {
				Ok(i) => {
					check(i.id == 0xFE, 2, "the device sees the broadcast ID");
					let (got, good) = match &i.instruction {
						Instructions::SyncRead { address, length, ids } => (ids, (kind == 0) & (*address == addr) & (*length == 300)),
						Instructions::SyncWrite { address, length, parameters } => (parameters, (kind == 1) & (*address == addr) & (*length == 2)),
						Instructions::BulkRead { parameters } => (parameters, kind == 2),
						Instructions::BulkWrite { parameters } => (parameters, kind == 3),
						_ => {
							check(false, 3, "the instruction that was sent arrives");
							return;
						},
					};
					check(good, 4, "instruction, address and length arrive as they were sent");
					check(got.len() == p.len() && eq(got, &p), 5, "the parameters for all motors arrive as they were sent");
					cover(1);
				},
				Err(e) => {
					rerr(e).obs();
					check(false, 6, "the device accepts what the client sends");
				},
			}
		};
	}
	if param(3) == 1 {
		judge!(d.read_owned(Duration::from_millis(9)));
	} else {
		judge!(d.read(Duration::from_millis(9)));
	}
}

/// A write of `param(0)` to `param(1)` bytes, of which the first and the last one are arbitrary. Variant `param(2)`: 0 write,
/// 1 registered write, 2 sync write to two motors, 3 bulk write to two motors, of which the second gets three bytes;
/// 4 and 5: like 0 and 1, to the broadcast ID. With `param(3)` 1, the bytes in between contain what needs stuffing.
#[no_mangle]
pub extern "C" fn h_big_write() {
	let n = pick(param(0), param(1));
	let kind = param(2);
	let l = Line::new();
	let addr = any_u16();
	let (a0, a1) = (addr as u8, (addr >> 8) as u8);
	let id = if kind > 3 { 0xFE } else { any_u8() };
	assume(kind > 3 || id != 0xFE);
	let d = filled(n, if param(3) == 1 { n / 2 } else { 0 });
	let (n0, n1) = (n as u8, (n >> 8) as u8);
	let mut p: Vec<u8> = Vec::new();
	let mut c = l.client(64, 2 * n + 64);
	status(&mut l.m().rx, id, 0, &[]);
	let good = match kind {
		2 => {
			let id2 = any_u8();
			p.extend_from_slice(&[a0, a1, n0, n1, id]);
			p.extend_from_slice(&d);
			p.push(id2);
			p.extend_from_slice(&d);
			c.sync_write_bytes(addr, n as u16, &[SyncWriteData { motor_id: id, data: &d[..] }, SyncWriteData { motor_id: id2, data: &d[..] }]).is_ok()
		},
		3 => {
			let id2 = id ^ 1;
			p.extend_from_slice(&[id, a0, a1, n0, n1]);
			p.extend_from_slice(&d);
			p.extend_from_slice(&[id2, a0, a1, 3, 0, 7, 8, 9]);
			c.bulk_write(&[
				BulkWriteData { motor_id: id, address: addr, data: &d[..] },
				BulkWriteData { motor_id: id2, address: addr, data: &[7, 8, 9] },
			])
			.is_ok()
		},
		_ => {
			p.extend_from_slice(&[a0, a1]);
			p.extend_from_slice(&d);
			let r = if kind % 2 == 0 { c.write_bytes(id, addr, &d) } else { c.reg_write_bytes(id, addr, &d) };
			match r {
				Ok(r) => {
					check(r.motor_id == id, 1, "the response names the motor that was addressed");
					true
				},
				Err(_) => false,
			}
		},
	};
	check(good, 2, "a write that fits the write buffer succeeds");
	let ins = match kind {
		2 => spec::SYNC_WRITE,
		3 => spec::BULK_WRITE,
		k if k % 2 == 0 => spec::WRITE,
		_ => spec::REG_WRITE,
	};
	let mut want = Vec::new();
	frame(&mut want, if kind > 1 { 0xFE } else { id }, ins, &p);
	check(l.m().writes == 1, 3, "one packet is transmitted");
	check(eq(&l.m().tx, &want), 4, "the instruction packet is the one of the protocol");
	check((l.m().reads > 0) == (kind < 2), 5, "a reply is waited for if and only if one motor is addressed");
	cover(1);
}

/// A bulk write of `param(0)` bytes to one motor: more than the 16-bit length can describe are refused with a panic, and a
/// packet that is too long is an error; nothing is transmitted.
#[no_mangle]
pub extern "C" fn h_bulk_write_huge() {
	let n = param(0);
	let l = Line::new();
	let d = vec![0u8; n];
	let mut c = l.client(64, 66_000);
	let id = any_u8() & 0x7F;
	if n > 65_535 {
		allow_panic(true);
		cover(1);
	}
	l.m().no_tx = n + 5 + 1 + 2 > 65_535;
	let r = c.bulk_write(&[BulkWriteData { motor_id: id, address: any_u16(), data: &d[..] }]);
	check(n <= 65_535, 1, "data that is too long for its length field is refused with a panic");
	if n + 5 + 1 + 2 > 65_535 {
		check(r.is_err(), 2, "a packet that is too long for the length field is an error");
		cover(2);
	} else {
		check(r.is_ok() && l.m().tx.len() == 7 + n + 5 + 1 + 2, 3, "a packet with a length that the length field can hold is sent");
		cover(3);
	}
}
