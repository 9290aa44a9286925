//! Transmission: wire format, stuffing, buffer limits, round trips.

use crate::ops::*;
use crate::rt::*;
use crate::spec::{self, Bytes};
use crate::world::*;
use core::time::Duration;

fn any_bytes(n: usize) -> Bytes {
	let mut p = Bytes::new();
	for _ in 0..n {
		p.push(any_u8());
	}
	p
}

fn judge_tx(w: &World, ok: bool, f: &Bytes) {
	check(ok, 1, "writing a packet that fits the buffer succeeds");
	check(w.m().writes == 1, 2, "a packet is transmitted in exactly one write");
	let sent = w.sent();
	check(sent.len() == f.n, 3, "the transmitted packet has the length of the reference encoding");
	check(eq(sent, f.s()), 4, "the transmitted packet is the reference encoding");
	obs_bytes(sent);
	cover(1);
}

/// Any instruction packet with `param(0)` parameters.
#[no_mangle]
pub extern "C" fn h_tx_instruction() {
	let n = param(0);
	let w = World::new();
	let (mut r, mut b) = ([0u8; 64], [0u8; 128]);
	let mut c = w.client(&mut r, &mut b);
	let id = any_u8();
	let ins = any_u8();
	let p = any_bytes(n);
	let res = c.write_instruction(id, ins, n, |o| {
		check(o.len() == n, 6, "the encoder gets a buffer of the size of the parameters");
		o.copy_from_slice(p.s());
		Ok(())
	});
	let f = spec::frame(id, ins, p.s());
	judge_tx(&w, res.is_ok(), &f);
	if f.n > 10 + n {
		cover(2);
	}
}

/// Any status packet with `param(0)` parameters.
#[no_mangle]
pub extern "C" fn h_tx_status() {
	let n = param(0);
	let w = World::new();
	let (mut r, mut b) = ([0u8; 64], [0u8; 128]);
	let mut c = w.device(&mut r, &mut b);
	let id = any_u8();
	let err = any_u8();
	let p = any_bytes(n);
	let res = c.write_status(id, err, n, |o| {
		check(o.len() == n, 6, "the encoder gets a buffer of the size of the parameters");
		o.copy_from_slice(p.s());
		Ok(())
	});
	let f = spec::status(id, err, p.s());
	judge_tx(&w, res.is_ok(), &f);
	if f.n > 11 + n {
		cover(2);
	}
}

/// The two short forms of a status packet.
#[no_mangle]
pub extern "C" fn h_tx_status_short() {
	let w = World::new();
	let (mut r, mut b) = ([0u8; 64], [0u8; 128]);
	let mut c = w.device(&mut r, &mut b);
	let id = any_u8();
	let err = any_u8();
	if choose(2) == 0 {
		let res = c.write_status_ok(id);
		judge_tx(&w, res.is_ok(), &spec::status(id, 0, &[]));
	} else {
		let res = c.write_status_error(id, err);
		judge_tx(&w, res.is_ok(), &spec::status(id, err, &[]));
	}
}

/// A long packet: `param(0)` fixed parameters, `param(1)` arbitrary ones, `param(2)` fixed ones.
#[no_mangle]
pub extern "C" fn h_tx_long() {
	let (x, y, z) = (param(0), param(1), param(2));
	let w = World::new();
	let (mut r, mut b) = ([0u8; 64], [0u8; 320]);
	let mut c = w.client(&mut r, &mut b);
	let id = any_u8();
	let mut p = Bytes::new();
	for i in 0..x {
		p.push([0xFF, 0xFF, 0xFD, 0xFD, 0x00, 0xFF, 0xFE][i % 7]);
	}
	for _ in 0..y {
		p.push(any_u8());
	}
	for i in 0..z {
		p.push([0x00, 0xFF, 0xFF, 0xFD, 0x01][i % 5]);
	}
	let n = p.n;
	let res = c.write_instruction(id, spec::WRITE, n, |o| {
		o.copy_from_slice(p.s());
		Ok(())
	});
	let f = spec::frame(id, spec::WRITE, p.s());
	judge_tx(&w, res.is_ok(), &f);
}

/// The transmitted body never contains the header prefix, and `FF FF FD` is always followed by the stuffing byte.
#[no_mangle]
pub extern "C" fn h_tx_no_header() {
	let n = param(0);
	let w = World::new();
	let (mut r, mut b) = ([0u8; 64], [0u8; 128]);
	let p = any_bytes(n);
	let ok = if param(1) == 0 {
		let ins = any_u8();
		let mut c = w.client(&mut r, &mut b);
		c.write_instruction(1, ins, n, |o| {
			o.copy_from_slice(p.s());
			Ok(())
		})
		.is_ok()
	} else {
		let err = any_u8();
		let mut c = w.device(&mut r, &mut b);
		c.write_status(1, err, n, |o| {
			o.copy_from_slice(p.s());
			Ok(())
		})
		.is_ok()
	};
	check(ok, 1, "writing a packet that fits the buffer succeeds");
	let sent = w.sent();
	check(sent.len() >= 10, 2, "a packet has at least ten bytes");
	let body = &sent[7..sent.len() - 2];
	check(!spec::has_header(body), 3, "the transmitted body does not contain the header prefix");
	let mut fine = true;
	for i in 0..body.len() {
		if i + 2 < body.len() {
			let pat = (body[i] == 0xFF) & (body[i + 1] == 0xFF) & (body[i + 2] == 0xFD);
			let next = if i + 3 < body.len() { body[i + 3] } else { 0 };
			fine &= !pat | (next == 0xFD);
		}
	}
	check(fine, 4, "FF FF FD in the transmitted body is always followed by a stuffing byte");
	obs_bytes(body);
	cover(1);
}

/// Client to device: every instruction arrives as it was sent.
#[no_mangle]
pub extern "C" fn h_roundtrip_instruction() {
	let n = param(0);
	let (w, v) = (World::new(), World::new());
	let (mut r, mut b) = ([0u8; 64], [0u8; 128]);
	let (mut r2, mut b2) = ([0u8; 128], [0u8; 64]);
	let id = any_u8();
	let ins = any_u8();
	assume(ins != spec::STATUS);
	let p = any_bytes(n);
	let mut c = w.client(&mut r, &mut b);
	let ok = c
		.write_instruction(id, ins, n, |o| {
			o.copy_from_slice(p.s());
			Ok(())
		})
		.is_ok();
	check(ok, 1, "writing a packet that fits the buffer succeeds");
	v.feed(w.sent());
	let mut d = v.device(&mut r2, &mut b2);
	match d.read_raw_instruction_timeout(Duration::from_millis(10)) {
		Ok(i) => {
			check(i.packet_id() == id, 2, "the device sees the ID that was sent");
			check(i.instruction_id() == ins, 3, "the device sees the instruction that was sent");
			check(eq(i.parameters(), p.s()), 4, "the device sees the parameters that were sent");
			obs_bytes(i.parameters());
			cover(1);
		},
		Err(e) => {
			rerr(e).obs();
			check(false, 5, "the device accepts what the client sends");
		},
	}
}

/// Device to client: every status packet arrives as it was sent.
#[no_mangle]
pub extern "C" fn h_roundtrip_status() {
	let n = param(0);
	let (w, v) = (World::new(), World::new());
	let (mut r, mut b) = ([0u8; 64], [0u8; 128]);
	let (mut r2, mut b2) = ([0u8; 128], [0u8; 64]);
	let id = any_u8();
	let err = any_u8();
	let p = any_bytes(n);
	let mut d = w.device(&mut r, &mut b);
	let ok = d
		.write_status(id, err, n, |o| {
			o.copy_from_slice(p.s());
			Ok(())
		})
		.is_ok();
	check(ok, 1, "writing a packet that fits the buffer succeeds");
	v.feed(w.sent());
	let mut c = v.client(&mut r2, &mut b2);
	match c.read_status_response(n as u16) {
		Ok(s) => {
			check(s.packet_id() == id, 2, "the client sees the ID that was sent");
			check(s.error() == err, 3, "the client sees the error field that was sent");
			check((s.alert() == (err & 0x80 != 0)) & (s.error_number() == err & 0x7F), 4, "alert and error number are the parts of the error field");
			check(err & 0x7F == 0, 5, "a status packet with an error number is reported as a motor error");
			check(eq(s.parameters(), p.s()), 6, "the client sees the parameters that were sent");
			obs_bytes(s.parameters());
			cover(1);
		},
		Err(e) => {
			let e = rerr(e);
			e.obs();
			match e {
				R::Motor(x) => check((err & 0x7F != 0) & (x == err), 7, "a motor error carries the error field that was sent"),
				_ => check(false, 8, "the client accepts what the device sends"),
			}
		},
	}
}

/// Two packets in a row: the second is not affected by the first.
#[no_mangle]
pub extern "C" fn h_tx_twice() {
	let w = World::new();
	let (mut r, mut b) = ([0u8; 64], [0u8; 128]);
	let mut c = w.client(&mut r, &mut b);
	let (n, m) = (param(0), param(1));
	let p = any_bytes(n);
	let q = any_bytes(m);
	let a = c.write_instruction(any_u8(), spec::WRITE, n, |o| {
		o.copy_from_slice(p.s());
		Ok(())
	});
	check(a.is_ok() && w.m().writes == 1, 1, "writing a packet that fits the buffer succeeds");
	let l = w.m().tx_len;
	let id = any_u8();
	let a = c.write_instruction(id, spec::REG_WRITE, m, |o| {
		o.copy_from_slice(q.s());
		Ok(())
	});
	check(a.is_ok() && w.m().writes == 2, 2, "writing a packet that fits the buffer succeeds");
	let f = spec::frame(id, spec::REG_WRITE, q.s());
	check(eq(&w.sent()[l..], f.s()), 3, "a packet does not depend on the packet transmitted before");
	cover(1);
}

/// Buffers of every size around what is needed: either the whole packet is sent, or an accurate error and nothing.
#[no_mangle]
pub extern "C" fn h_buf_write() {
	let n = param(0);
	let w = World::new();
	let mut r = [0u8; 64];
	let mut store = [0u8; 64];
	let status = param(1) == 1;
	let cap = pick(10, 12 + n + n / 3 + 2);
	let p = any_bytes(n);
	let id = any_u8();
	let ins = any_u8();
	let (res, f) = if status {
		let mut d = w.device(&mut r, &mut store[..cap]);
		(
			d.write_status(id, ins, n, |o| {
				o.copy_from_slice(p.s());
				Ok(())
			}),
			spec::status(id, ins, p.s()),
		)
	} else {
		let mut c = w.client(&mut r, &mut store[..cap]);
		(
			c.write_instruction(id, ins, n, |o| {
				o.copy_from_slice(p.s());
				Ok(())
			}),
			spec::frame(id, ins, p.s()),
		)
	};
	match res {
		Ok(()) => {
			check(f.n <= cap, 1, "a packet that does not fit the write buffer is not reported as sent");
			check(eq(w.sent(), f.s()) && w.m().writes == 1, 2, "success means that the whole packet was sent");
			cover(1);
		},
		Err(e) => {
			check(w.m().writes == 0, 3, "nothing is sent when the write buffer is too small");
			match werr(e) {
				R::WSmall { required, total } => {
					check(f.n > cap, 4, "a packet that fits the write buffer is sent");
					check(total == cap, 5, "the error names the size of the write buffer");
					check(required > cap && required <= f.n, 6, "the error names a required size between the buffer and the packet");
					obs(required as u64);
					cover(2);
					if 10 + n + status as usize <= cap {
						cover(3);
					}
				},
				_ => check(false, 7, "a write buffer that is too small is reported as such"),
			}
		},
	}
}

/// A packet that no 16-bit length field can describe is refused; the longest possible one is sent.
#[no_mangle]
pub extern "C" fn h_tx_huge() {
	use core::cell::UnsafeCell;
	struct Rec {
		head: [u8; 16],
		tail: [u8; 8],
		len: usize,
		writes: u32,
	}
	struct P<'a>(&'a UnsafeCell<Rec>);
	impl<'a> dynamixel2::SerialPort for P<'a> {
		type Error = E;
		type Instant = Duration;
		fn baud_rate(&self) -> Result<u32, E> {
			Ok(57600)
		}
		fn set_baud_rate(&mut self, _: u32) -> Result<(), E> {
			Ok(())
		}
		fn discard_input_buffer(&mut self) -> Result<(), E> {
			Ok(())
		}
		fn read(&mut self, _: &mut [u8], _: &Duration) -> Result<usize, E> {
			Err(E::Timeout)
		}
		fn write_all(&mut self, b: &[u8]) -> Result<(), E> {
			let r = unsafe { &mut *self.0.get() };
			r.writes += 1;
			r.len = b.len();
			r.head[..8].copy_from_slice(&b[..8]);
			r.tail.copy_from_slice(&b[b.len() - 8..]);
			Ok(())
		}
		fn make_deadline(&self, t: Duration) -> Duration {
			t
		}
		fn is_timeout_error(e: &E) -> bool {
			*e == E::Timeout
		}
	}
	let rec = UnsafeCell::new(Rec { head: [0; 16], tail: [0; 8], len: 0, writes: 0 });
	// number of parameters; body is one byte more, the length field three bytes more
	let n = 65_528 + param(0);
	let stuffed = param(1) != 0;
	let buf = alloc::vec![0u8; 65_600];
	let rbuf = alloc::vec![0u8; 64];
	let mut c = match dynamixel2::Client::with_buffers(P(&rec), rbuf, buf) {
		Ok(c) => c,
		Err(_) => return,
	};
	let id = any_u8();
	let x = any_u8();
	let res = c.write_instruction(id, spec::WRITE, n, |o| {
		o[0] = x;
		if stuffed {
			o[100..103].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
		}
		Ok(())
	});
	let r = unsafe { &*rec.get() };
	let body = 1 + n + stuffed as usize;
	if body + 2 <= 65_535 {
		check(res.is_ok(), 1, "a packet with a length that the length field can hold is sent");
		check(r.writes == 1 && r.len == 7 + body + 2, 2, "the whole packet is sent");
		let l = (body + 2) as u16;
		check(eq(&r.head[..7], &[0xFF, 0xFF, 0xFD, 0x00, id, l as u8, (l >> 8) as u8]), 3, "the length field holds the number of bytes that follow");
		cover(1);
	} else {
		check(r.writes == 0, 4, "a packet that is too long for the length field is not sent");
		check(res.is_err(), 5, "a packet that is too long for the length field is an error");
		cover(2);
	}
}
