//! Reception: which frames are accepted, resynchronisation, independence of chunking.

use crate::ops::*;
use crate::rt::*;
use crate::spec::{self, Bytes, Ev};
use crate::world::*;
use core::time::Duration;

/// One status packet, as a uniform outcome.
pub fn status(c: &mut C) -> R {
	match c.read_status_response(4) {
		Ok(s) => {
			check(s.error() & 0x7F == 0, 950, "a status packet with an error number is not a success");
			check(s.instruction_id() == spec::STATUS, 951, "what is returned as a status packet is one");
			check(s.parameters().len() <= 16, 993, "more parameters than the harness can record");
			ok(s.packet_id(), s.alert(), s.parameters())
		},
		Err(e) => rerr(e),
	}
}

pub fn chunk(w: &World, mode: usize) {
	w.m().chunk = match mode {
		0 => Chunk::All,
		1 => Chunk::Any,
		2 => {
			w.m().zero_reads = 2;
			Chunk::AnyOrZero
		},
		k => Chunk::Max(k - 2),
	};
}

/// An arbitrary stream of `param(0)` bytes behind `param(3)` bytes of a header, read by the client with a buffer of
/// `param(1)` bytes, in chunks as given by `param(2)`: every result is what the reference receiver says.
#[no_mangle]
pub extern "C" fn h_rx_stream() {
	let (n, cap, mode, pre) = (param(0), param(1), param(2), param(3));
	let w = World::new();
	w.feed(&[0xFF, 0xFF, 0xFD, 0x00][..pre]);
	w.feed_any(n);
	let mut rx = [0u8; 64];
	let total = n + pre;
	rx[..total].copy_from_slice(&w.m().rx[..total]);
	let rx = &rx[..total];
	chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r[..cap], &mut b);
	let mut pos = 0;
	for _ in 0..total / 7 + 2 {
		// With nothing but a header left, it is undecided whether the length is looked at already.
		let ev = spec::next(rx, &mut pos, cap);
		let got = status(&mut c);
		got.obs();
		match ev {
			Ev::More => {
				if !got.is_timeout() {
					check(total - pos == 7, 1, "without a complete frame the read times out");
				}
				break;
			},
			Ev::Long { required } => {
				cover(2);
				match got {
					R::Full { required: q, total: t } => {
						check(q == required, 2, "the error names the size of the packet");
						check(t == cap, 3, "the error names the size of the read buffer");
					},
					_ => check(false, 4, "a packet that does not fit the read buffer is reported as such"),
				}
			},
			Ev::Short { .. } => {
				cover(3);
				check(matches!(got, R::Count { .. } | R::Crc { .. }), 5, "a length that no frame can have is an invalid message");
			},
			Ev::BadCrc { message, computed } => {
				cover(4);
				check(got.same(&R::Crc { message, computed }), 6, "a frame with a wrong CRC is rejected, naming both checksums");
			},
			Ev::Frame { id, ins, body } => {
				if ins != spec::STATUS {
					cover(5);
					check(got.same(&R::Instr { actual: ins, expected: spec::STATUS }), 7, "a frame other than a status packet is rejected as such");
				} else if body.n < 2 {
					cover(6);
					check(matches!(got, R::Count { actual: 0, kind: 2, expected: 1 }), 8, "a status packet without an error field is rejected");
				} else if body.b[1] & 0x7F != 0 {
					cover(7);
					check(got.same(&R::Motor(body.b[1])), 9, "a status packet with an error number is a motor error");
				} else {
					cover(8);
					check(got.same(&ok(id, body.b[1] & 0x80 != 0, &body.s()[2..])), 10, "a valid status packet is accepted as it was sent");
				}
			},
		}
	}
}

/// The same for the device: `param(0)` bytes behind `param(3)` bytes of a header.
#[no_mangle]
pub extern "C" fn h_rx_stream_device() {
	let (n, cap, mode, pre) = (param(0), param(1), param(2), param(3));
	let w = World::new();
	w.feed(&[0xFF, 0xFF, 0xFD, 0x00][..pre]);
	w.feed_any(n);
	let mut rx = [0u8; 64];
	let total = n + pre;
	rx[..total].copy_from_slice(&w.m().rx[..total]);
	let rx = &rx[..total];
	chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut d = w.device(&mut r[..cap], &mut b);
	let mut pos = 0;
	for _ in 0..total / 7 + 2 {
		let mut ev = spec::next(rx, &mut pos, cap);
		// status packets are not for a device: they are skipped
		while let Ev::Frame { ins: spec::STATUS, body, .. } = ev {
			if body.n < 2 {
				break;
			}
			cover(9);
			ev = spec::next(rx, &mut pos, cap);
		}
		let before = w.m().deadlines;
		let got = match d.read_raw_instruction_timeout(Duration::from_millis(7)) {
			Ok(i) => {
				obs(i.packet_id() as u64);
				obs(i.instruction_id() as u64);
				obs_bytes(i.parameters());
				match ev {
					Ev::Frame { id, ins, body } => {
						cover(8);
						check(ins != spec::STATUS, 20, "a device does not take a status packet for an instruction");
						check((i.packet_id() == id) & (i.instruction_id() == ins), 21, "ID and instruction are those of the frame");
						check(eq(i.parameters(), &body.s()[1..]), 22, "the parameters are those of the frame");
					},
					_ => check(false, 23, "only a valid frame is accepted"),
				}
				R::End
			},
			Err(e) => rerr(e),
		};
		check(w.m().deadlines == before + 1 && !w.m().wrong_deadline && w.m().last == Duration::from_millis(7), 24, "one deadline holds for the whole read of an instruction");
		got.obs();
		match ev {
			Ev::More => {
				if !got.is_timeout() {
					check(total - pos == 7, 1, "without a complete frame the read times out");
				}
				break;
			},
			Ev::Long { required } => {
				cover(2);
				check(got.same(&R::Full { required, total: cap }), 2, "a packet that does not fit the read buffer is reported as such");
			},
			Ev::Short { .. } => {
				cover(3);
				check(matches!(got, R::Count { .. } | R::Crc { .. }), 5, "a length that no frame can have is an invalid message");
			},
			Ev::BadCrc { message, computed } => {
				cover(4);
				check(got.same(&R::Crc { message, computed }), 6, "a frame with a wrong CRC is rejected, naming both checksums");
			},
			Ev::Frame { ins, .. } => {
				if ins == spec::STATUS {
					cover(6);
					check(matches!(got, R::Count { actual: 0, kind: 2, expected: 1 }), 8, "a status packet without an error field is rejected");
				} else {
					check(matches!(got, R::End), 25, "a valid instruction packet is accepted");
				}
			},
		}
	}
}

/// A frame with a good CRC whose body (instruction to parameters) is `param(0)` arbitrary bytes, also such as no sender
/// makes: it is unstuffed as the protocol says. `param(1)` 0: client (status packets), 1: device.
#[no_mangle]
pub extern "C" fn h_rx_body() {
	let (n, dev) = (param(0), param(1) == 1);
	let w = World::new();
	let id = any_u8();
	let mut st = Bytes::new();
	for i in 0..n {
		st.push(if !dev && i == 0 { spec::STATUS } else { any_u8() });
	}
	w.feed(spec::frame_raw(id, st.s()).s());
	let body = spec::unstuff(st.s());
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	if dev {
		let mut d = w.device(&mut r, &mut b);
		match d.read_raw_instruction_timeout(Duration::from_millis(5)) {
			Ok(i) => {
				check((i.packet_id() == id) & (i.instruction_id() == body.b[0]), 1, "packet ID and instruction are those of the frame");
				check(eq(i.parameters(), &body.s()[1..]), 2, "the parameters are unstuffed");
				cover(1);
			},
			Err(e) => {
				let e = rerr(e);
				check((e.is_timeout() || matches!(e, R::Count { .. })) && body.b[0] == spec::STATUS, 3, "every frame but a status packet is an instruction");
				cover(2);
			},
		}
	} else {
		let mut c = w.client(&mut r, &mut b);
		let got = status(&mut c);
		got.obs();
		if body.b[1] & 0x7F != 0 {
			check(got.same(&R::Motor(body.b[1])), 4, "a status packet with an error number is a motor error");
			cover(3);
		} else {
			check(got.same(&ok(id, body.b[1] & 0x80 != 0, &body.s()[2..])), 5, "the parameters are unstuffed");
			cover(4);
		}
	}
}

/// `param(0)` status frames with `param(1)` arbitrary parameters each, back to back, delivered with boundaries at up to
/// `param(2)` arbitrary places (plus, with `param(3)`, in pieces of at most that many bytes), into a buffer that is just
/// large enough for one of them (`param(4)` = 0) or for `param(4)` bytes more.
#[no_mangle]
pub extern "C" fn h_rx_chunks() {
	let (k, np, cuts, max, extra) = (param(0), param(1), param(2), param(3), param(4));
	let w = World::new();
	let mut ids = [0u8; 4];
	let mut al = [0u8; 4];
	let mut ps = [Bytes::new(); 4];
	let mut largest = 10;
	for j in 0..k {
		ids[j] = any_u8();
		al[j] = any_u8() & 0x80;
		for _ in 0..np {
			ps[j].push(any_u8());
		}
		let f = spec::status(ids[j], al[j], ps[j].s());
		if f.n > largest {
			largest = f.n;
		}
		w.feed(f.s());
	}
	let total = w.m().rx_len;
	let mut last = 0;
	for j in 0..cuts {
		last = pick(last, total);
		w.m().cuts[j] = last;
	}
	w.m().chunk = if max == 0 { Chunk::All } else { Chunk::Max(max) };
	let (mut r, mut b) = ([0u8; 96], [0u8; 64]);
	let mut c = w.client(&mut r[..largest + extra], &mut b);
	for j in 0..k {
		let got = status(&mut c);
		got.obs();
		check(got.same(&ok(ids[j], al[j] != 0, ps[j].s())), 1, "every frame is received as it was sent, in order, however the bytes arrive");
	}
	check(status(&mut c).is_timeout(), 2, "nothing is received beyond what was sent");
	cover(1);
}

/// Up to `param(0)` arbitrary bytes that contain no header prefix do not keep the frame behind them from being received.
#[no_mangle]
pub extern "C" fn h_rx_garbage() {
	let (g, np, extra, mode) = (param(0), param(1), param(2), param(3));
	let w = World::new();
	let mut st = Bytes::new();
	for _ in 0..g {
		st.push(any_u8());
	}
	st.put(&[0xFF, 0xFF, 0xFD]);
	assume(!spec::has_header(st.s()));
	st.n -= 3;
	w.feed(st.s());
	let id = any_u8();
	let mut p = Bytes::new();
	for _ in 0..np {
		p.push(any_u8());
	}
	let f = spec::status(id, 0, p.s());
	w.feed(f.s());
	chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r[..f.n + extra], &mut b);
	let got = status(&mut c);
	got.obs();
	check(got.same(&ok(id, false, p.s())), 1, "bytes that are no frame are skipped");
	cover(1);
}

/// A frame damaged by a burst of at most 16 bits is rejected, and the frame behind it is received.
#[no_mangle]
pub extern "C" fn h_rx_burst() {
	let (np, mode) = (param(0), param(1));
	let w = World::new();
	let id = any_u8();
	let err = any_u8();
	let mut p = Bytes::new();
	for _ in 0..np {
		p.push(any_u8());
	}
	let mut f = spec::status(id, err, p.s());
	// damaged: the ID, up to three adjacent bytes of the body, or the CRC
	let k = pick(0, f.n - 8);
	let d = [any_u8(), any_u8(), any_u8()];
	let v = (d[0] as u32) << 16 | (d[1] as u32) << 8 | d[2] as u32;
	assume(d[0] != 0);
	let mut short = false;
	for s in 0..=8 {
		short |= v & !(0xFFFFu32 << s) & 0xFF_FFFF == 0;
	}
	assume(short);
	if k == 0 {
		assume(d[1] == 0 && d[2] == 0);
		f.b[4] ^= d[0];
	} else {
		let at = 6 + k;
		let end = if at >= f.n - 2 { f.n } else { f.n - 2 };
		for j in 0..3 {
			if at + j < end {
				f.b[at + j] ^= d[j];
			} else {
				assume(d[j] == 0);
			}
		}
	}
	w.feed(f.s());
	let id2 = any_u8();
	let x = any_u8();
	let g = spec::status(id2, 0, &[x]);
	w.feed(g.s());
	chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	match status(&mut c) {
		R::Crc { message, computed } => check(message != computed, 1, "the checksums of a checksum error differ"),
		_ => check(false, 2, "a damaged frame is rejected with a checksum error"),
	}
	let got = status(&mut c);
	got.obs();
	check(got.same(&ok(id2, false, &[x])), 3, "the frame behind a damaged one is received");
	cover(1);
}

/// A frame whose length field is impossible (below 3) or larger than the read buffer is rejected, and the frame behind
/// it is received.
#[no_mangle]
pub extern "C" fn h_rx_badlen() {
	let (j, extra, mode) = (param(0), param(1), param(2));
	let w = World::new();
	let id2 = any_u8();
	let x = any_u8();
	let g = spec::status(id2, 0, &[x]);
	let cap = g.n + extra;
	let len = any_u16();
	let long = len as usize + 7 > cap;
	let mut st = Bytes::new();
	st.push(len as u8);
	st.push((len >> 8) as u8);
	for _ in 0..j {
		st.push(any_u8());
	}
	// nothing in between looks like a header
	let n = st.n;
	st.put(&[0xFF, 0xFF, 0xFD]);
	assume(!spec::has_header(&st.b[2..n + 3]));
	assume(long || len < 3);
	st.n = n;
	w.feed(&[0xFF, 0xFF, 0xFD, 0x00, any_u8()]);
	w.feed(st.s());
	w.feed(g.s());
	chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r[..cap], &mut b);
	let got = status(&mut c);
	got.obs();
	if long {
		check(got.same(&R::Full { required: len as usize + 7, total: cap }), 1, "a packet that does not fit the read buffer is reported with both sizes");
		cover(1);
	} else {
		check(got.same(&R::Count { actual: len as usize, kind: 2, expected: 3 }), 2, "a length that no frame can have is an invalid message, with both lengths");
		cover(2);
	}
	let got = status(&mut c);
	got.obs();
	check(got.same(&ok(id2, false, &[x])), 3, "the frame behind one with an unusable length is received");
}

/// Read buffers of every size: a frame is received if it fits, and reported with both sizes if not.
#[no_mangle]
pub extern "C" fn h_buf_read() {
	let np = param(0);
	let w = World::new();
	let id = any_u8();
	let mut p = Bytes::new();
	for _ in 0..np {
		p.push(any_u8());
	}
	let f = spec::status(id, 0, p.s());
	w.feed(f.s());
	let cap = pick(0, f.n + 2);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r[..cap], &mut b);
	let got = status(&mut c);
	got.obs();
	if f.n <= cap {
		check(got.same(&ok(id, false, p.s())), 1, "a packet that fits the read buffer is received");
		cover(1);
	} else {
		match got {
			R::Full { required, total } => {
				check(total == cap, 2, "the error names the size of the read buffer");
				check(required > cap && required <= f.n, 3, "the error names a required size between the buffer and the packet");
				check(cap < 10 || required == f.n, 4, "the error names the size of the packet");
			},
			_ => check(false, 5, "a packet that does not fit the read buffer is reported as such"),
		}
		cover(2);
	}
}

/// The buffers of `Client::new` and (`param(0)` = 1) `Device::new` hold packets of 128 bytes, and no more:
/// a packet of `param(1)` bytes is transmitted, and one received.
#[no_mangle]
pub extern "C" fn h_buf_new() {
	let (dev, size) = (param(0) == 1, param(1));
	let w = World::new();
	let (id, x) = (any_u8(), any_u8());
	let mut p = Bytes::new();
	for _ in 0..size - 10 {
		p.push(x);
	}
	let q = &p.s()[1..];
	let fits = size <= 128;
	w.feed(if dev { spec::frame(id, spec::WRITE, p.s()) } else { spec::status(id, 0, q) }.s());
	let (got, same, sent);
	let fill = |b: &mut [u8]| {
		b.fill(x);
		Ok(())
	};
	if dev {
		let mut d = match dynamixel2::Device::new(w.port()) {
			Ok(d) => d,
			Err(_) => return check(false, 1, "creating a device failed"),
		};
		(got, same) = match d.read_raw_instruction_timeout(Duration::from_millis(5)) {
			Ok(i) => (R::End, (i.packet_id() == id) & eq(i.parameters(), p.s())),
			Err(e) => (rerr(e), false),
		};
		sent = d.write_status(id, 0, size - 11, fill);
	} else {
		let mut c = match dynamixel2::Client::new(w.port()) {
			Ok(c) => c,
			Err(_) => return check(false, 2, "creating a client failed"),
		};
		(got, same) = match c.read_status_response(4) {
			Ok(s) => (R::End, (s.packet_id() == id) & eq(s.parameters(), q)),
			Err(e) => (rerr(e), false),
		};
		sent = c.write_instruction(id, spec::WRITE, size - 10, fill);
	}
	if fits {
		check(matches!(got, R::End) && same, 3, "a packet of 128 bytes is received");
		check(sent.is_ok(), 4, "a packet of 128 bytes is transmitted");
		check(w.sent_is(if dev { spec::status(id, 0, q) } else { spec::frame(id, spec::WRITE, p.s()) }.s()), 5, "a packet of 128 bytes is transmitted");
		cover(1);
	} else {
		check(got.same(&R::Full { required: size, total: 128 }), 6, "the read buffer is reported to have 128 bytes");
		match sent {
			Err(e) => check(werr(e).same(&R::WSmall { required: size, total: 128 }), 7, "the write buffer is reported to have 128 bytes"),
			Ok(_) => check(false, 8, "the write buffer has 128 bytes"),
		}
		check(w.m().tx_len == 0, 9, "nothing is transmitted");
		cover(2);
	}
}

/// Arbitrary bytes in answer to an operation: no panic, no endless loop, and no success unless a valid frame came.
/// `param(0)` operation, `param(1)` arbitrary bytes, `param(2)` chunks, `param(3)` leading bytes of a header,
/// `param(4)` size of the read buffer.
#[no_mangle]
pub extern "C" fn h_rob_op() {
	let (op, n, mode, pre, cap) = (param(0), param(1), param(2), param(3), param(4));
	let w = World::new();
	w.feed(&[0xFF, 0xFF, 0xFD, 0x00][..pre]);
	w.feed_any(n);
	chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r[..cap], &mut b);
	let id = any_u8();
	assume(id != spec::BROADCAST);
	let got = run(op, &mut c, &Args::plain(id));
	got.obs();
	if got.is_ok() {
		let mut pos = 0;
		// at least one frame of the stream is valid
		match spec::next(&w.m().rx[..n + pre], &mut pos, cap) {
			Ev::Frame { ins, .. } => check(ins == spec::STATUS, 1, "success without a status packet"),
			_ => check(false, 2, "success without a valid frame"),
		}
		cover(1);
	} else {
		cover(2);
	}
}

/// Faults: call number `choose` of the serial port fails (once or from then on); the operation ends, with an error that
/// carries the failure, and after a failed step nothing further is done.
/// `param(0)` operation, `param(1)` parameters of the (valid) reply.
#[no_mangle]
pub extern "C" fn h_fault_op() {
	let op = param(0);
	let w = World::new();
	let id = any_u8();
	let a = Args::plain(id);
	let (ins, p, n) = wire(op, &a);
	let mut d = Bytes::new();
	for i in 0..n {
		d.push(if i < 2 { any_u8() } else { 0x33 });
	}
	let f = spec::status(id, 0, d.s());
	w.barrier(0);
	w.feed(f.s());
	w.m().chunk = Chunk::Max(5);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let kinds = [b'D', b'W', b'R'];
	let kind = kinds[choose(3) as usize];
	let code = any_u8();
	let err = if choose(2) == 0 { E::Io(code) } else { E::Timeout };
	w.m().calls = 0;
	w.m().fault_kind = kind;
	w.m().fault_at = choose(4);
	w.m().fault_err = err;
	w.m().fault_forever = choose(2) == 1;
	w.m().fault_on = true;
	let got = run(op, &mut c, &a);
	got.obs();
	let m = w.m();
	if m.fault_hits > 0 {
		check(m.fault_hits == 1, 1, "after a failure of the serial port the operation ends");
		match kind {
			b'D' => {
				check(got.same(&R::WDiscard(err)), 2, "a failure to discard old input is reported as such");
				check(m.writes == 0 && m.reads == 0, 3, "nothing is sent after a failure to discard old input");
				cover(1);
			},
			b'W' => {
				check(got.same(&R::WWrite(err)), 4, "a failure to write is reported as such");
				check(m.reads == 0, 5, "nothing is read after a failure to write");
				cover(2);
			},
			_ => {
				check(got.same(&R::Io(err)), 6, "a failure to read is reported as such");
				check(m.writes == 1, 7, "nothing is sent again after a failure to read");
				cover(3);
			},
		}
	} else {
		check(got.is_ok(), 8, "without a failure the operation succeeds");
		check(w.sent_is(spec::frame(id, ins, p.s()).s()), 9, "without a failure the instruction is sent");
		cover(4);
	}
}
