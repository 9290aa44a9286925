//! Single-motor operations: what is transmitted, which replies are accepted, broadcasts.

use crate::ops::*;
use crate::rt::*;
use crate::spec::{self, Bytes};
use crate::world::*;
use dynamixel2::instructions::FactoryResetKind;
use dynamixel2::MotorError;

/// Operation `param(0)` with arbitrary ID and arguments: exactly the specified instruction packet is transmitted, once,
/// and the reply of the motor is the result.
#[no_mangle]
pub extern "C" fn h_cmd() {
	let op = param(0);
	let w = World::new();
	let id = any_u8();
	assume(id != spec::BROADCAST);
	let a = Args::any(op, id);
	let (ins, p, n) = wire(op, &a);
	let mut d = Bytes::new();
	for i in 0..n {
		d.push(0x40 + i as u8);
	}
	w.barrier(0);
	w.feed(spec::status(id, 0, d.s()).s());
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let got = run(op, &mut c, &a);
	obs_bytes(w.sent());
	got.obs();
	let f = spec::frame(id, ins, p.s());
	check(w.sent_is(f.s()), 1, "the operation transmits exactly the instruction packet of the protocol");
	check(w.m().writes == 1, 2, "an operation transmits one packet");
	check(got.same(&ok(id, false, d.s())), 3, "the result of the operation is the reply of the motor");
	cover(1);
	if f.n > 10 + p.n {
		cover(2);
	}
}

/// Operation `param(0)`, answered by an arbitrary status packet with `param(1)` parameters more (or, minus 100, fewer)
/// than expected, in chunks as given by `param(2)`.
#[no_mangle]
pub extern "C" fn h_resp() {
	let op = param(0);
	let w = World::new();
	let id = any_u8();
	assume(id != spec::BROADCAST);
	let a = Args::plain(id);
	let (_, _, n) = wire(op, &a);
	let np = if param(1) >= 100 {
		if n < param(1) - 100 {
			return;
		}
		n - (param(1) - 100)
	} else {
		n + param(1)
	};
	let rid = any_u8();
	let err = any_u8();
	let mut d = Bytes::new();
	for _ in 0..np {
		d.push(any_u8());
	}
	w.barrier(0);
	w.feed(spec::status(rid, err, d.s()).s());
	crate::recv::chunk(&w, param(2));
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let got = run(op, &mut c, &a);
	got.obs();
	judge(&got, id, n, rid, err, d.s(), 10);
	check(w.m().writes == 1, 1, "a reply does not make the operation transmit again");
	if got.is_ok() {
		cover(1);
	} else {
		cover(2);
	}
}

/// Operation `param(0)`, answered by a valid packet that is not a status packet: an error, whatever it holds.
#[no_mangle]
pub extern "C" fn h_resp_instr() {
	let op = param(0);
	let w = World::new();
	let id = any_u8();
	assume(id != spec::BROADCAST);
	let a = Args::plain(id);
	let (_, _, n) = wire(op, &a);
	let ins = any_u8();
	assume(ins != spec::STATUS);
	let mut d = Bytes::new();
	d.push(any_u8());
	for i in 0..n {
		d.push(if i < 3 { any_u8() } else { 7 });
	}
	w.barrier(0);
	w.feed(spec::frame(any_u8(), ins, d.s()).s());
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let got = run(op, &mut c, &a);
	got.obs();
	check(got.same(&R::Instr { actual: ins, expected: spec::STATUS }), 1, "a packet that is no status packet is not taken for a reply");
	cover(1);
}

/// The echo of the transmitted instruction is not taken for a reply.
#[no_mangle]
pub extern "C" fn h_resp_echo() {
	let op = param(0);
	let w = World::new();
	let id = any_u8();
	assume(id != spec::BROADCAST);
	let a = Args::plain(id);
	let (ins, p, _) = wire(op, &a);
	w.barrier(0);
	w.feed(spec::frame(id, ins, p.s()).s());
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let got = run(op, &mut c, &a);
	got.obs();
	check(!got.is_ok(), 1, "the echo of an instruction is not a reply to it");
	cover(1);
}

/// No reply at all, or one that is cut off after an arbitrary number of bytes: a time-out.
#[no_mangle]
pub extern "C" fn h_resp_cut() {
	let op = param(0);
	let w = World::new();
	let id = any_u8();
	assume(id != spec::BROADCAST);
	let a = Args::plain(id);
	let (_, _, n) = wire(op, &a);
	let mut d = Bytes::new();
	for i in 0..n {
		d.push(if i < 3 { any_u8() } else { 7 });
	}
	let f = spec::status(id, 0, d.s());
	let k = pick(0, f.n - 1);
	w.barrier(0);
	w.feed(&f.b[..k]);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let got = run(op, &mut c, &a);
	got.obs();
	check(got.is_timeout(), 1, "without a complete reply the operation times out");
	cover(1);
}

/// The raw transfer: arbitrary instruction, reply with `param(1)` parameters where `param(2)` were announced.
#[no_mangle]
pub extern "C" fn h_transfer() {
	let (n, np, expected) = (param(0), param(1), param(2));
	let w = World::new();
	let id = any_u8();
	let ins = any_u8();
	let mut p = Bytes::new();
	for _ in 0..n {
		p.push(any_u8());
	}
	let rid = any_u8();
	let err = any_u8();
	let mut d = Bytes::new();
	for _ in 0..np {
		d.push(any_u8());
	}
	w.barrier(0);
	w.feed(spec::status(rid, err, d.s()).s());
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let res = c.transfer_single(id, ins, n, expected as u16, |o| {
		o.copy_from_slice(p.s());
		Ok(())
	});
	match res {
		Ok(s) => {
			check(rid == id, 1, "a raw transfer accepts only a reply with the ID of the addressed motor");
			check(err & 0x7F == 0, 2, "a raw transfer accepts only a reply that reports no error");
			check((s.packet_id() == rid) & (s.error() == err) & (s.instruction_id() == spec::STATUS), 3, "the reply is handed over as it was received");
			check((s.alert() == (err & 0x80 != 0)) & (s.error_number() == 0), 4, "alert and error number are the parts of the error field");
			check(eq(s.parameters(), d.s()), 5, "the parameters of the reply are handed over");
			cover(1);
		},
		Err(e) => {
			let e = terr(e);
			e.obs();
			match e {
				R::Motor(x) => check((err & 0x7F != 0) & (x == err), 6, "a motor error carries the error field of the reply"),
				R::Id { actual, expected } => check((rid != id) & (actual == rid) & (expected == Some(id)), 7, "an ID error names the IDs received and expected"),
				_ => check(false, 8, "a valid status reply gives a reply, a motor error or an ID error"),
			}
			cover(2);
		},
	}
	check(w.sent_is(spec::frame(id, ins, p.s()).s()), 9, "a raw transfer transmits the instruction packet");
}

/// Instructions to the broadcast ID that no motor answers: transmitted, not waited for, and reported as a response of
/// the broadcast ID, whatever arrives.
#[no_mangle]
pub extern "C" fn h_broadcast() {
	let op = param(0);
	let w = World::new();
	let a = Args::any(op, spec::BROADCAST);
	w.barrier(0);
	w.feed_any(12);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let (ins, p, got) = match op {
		100 => (spec::ACTION, Bytes::new(), wres(c.broadcast_action())),
		101 => (spec::REBOOT, Bytes::new(), wres(c.broadcast_reboot())),
		102 => (spec::FACTORY_RESET, Bytes::of(&[0xFF]), wres(c.broadcast_factory_reset(FactoryResetKind::ResetAll))),
		103 => (spec::FACTORY_RESET, Bytes::of(&[1]), wres(c.broadcast_factory_reset(FactoryResetKind::KeepId))),
		104 => (spec::FACTORY_RESET, Bytes::of(&[2]), wres(c.broadcast_factory_reset(FactoryResetKind::KeepIdAndBaudRate))),
		105 => (spec::CLEAR, Bytes::of(&[0x01, 0x44, 0x58, 0x4C, 0x22]), wres(c.broadcast_clear_revolution_counter())),
		106 => (spec::CLEAR, Bytes::of(&[0x02, 0x45, 0x52, 0x43, 0x4C]), wres(c.broadcast_clear_error())),
		_ => {
			let (ins, p, _) = wire(op, &a);
			(ins, p, run(op, &mut c, &a))
		},
	};
	got.obs();
	check(w.sent_is(spec::frame(spec::BROADCAST, ins, p.s()).s()), 1, "the instruction packet is transmitted to the broadcast ID");
	check(w.m().reads == 0, 2, "no reply to a broadcast is waited for");
	check(w.m().pos == 0, 3, "nothing is taken from the input after a broadcast");
	check(got.same(&ok(spec::BROADCAST, false, &[])), 4, "a broadcast succeeds without a reply");
	cover(1);
}

/// Error fields: every value, as seen through the motor error.
#[no_mangle]
pub extern "C" fn h_motor_error() {
	let raw = any_u8();
	let e = MotorError { raw };
	check(e.error_number() == raw & 0x7F, 1, "the error number is the low seven bits of the error field");
	check(e.alert() == (raw >= 0x80), 2, "the alert flag is the top bit of the error field");
	check(MotorError::check(raw).is_ok() == (raw & 0x7F == 0), 3, "the alert flag alone is not an error");
	let mut v = 0;
	if let Err(x) = MotorError::check(raw) {
		v = x.raw;
		cover(1);
	}
	check((v == raw) | (raw & 0x7F == 0), 4, "a motor error carries the error field");
	obs(v as u64);
	cover(2);
}

/// The four-valued length, ID and size checks of the public error types.
#[no_mangle]
pub extern "C" fn h_error_checks() {
	use dynamixel2::*;
	let (a, b) = (any_u16() as usize, any_u16() as usize);
	match BufferTooSmallError::check(a, b) {
		Ok(()) => check(a <= b, 1, "a buffer is too small exactly if it is smaller than required"),
		Err(e) => check((a > b) & (e.required_size == a) & (e.total_size == b), 2, "the error names both sizes"),
	}
	match InvalidParameterCount::check(a, b) {
		Ok(()) => check(a == b, 3, "counts match exactly if they are equal"),
		Err(e) => check((a != b) & (e.actual == a) & (e.expected == ExpectedCount::Exact(b)), 4, "the error names both counts"),
	}
	match InvalidParameterCount::check_max(a, b) {
		Ok(()) => check(a <= b, 5, "a count is too large exactly if it exceeds the maximum"),
		Err(e) => check((a > b) & (e.actual == a) & (e.expected == ExpectedCount::Max(b)), 6, "the error names both counts"),
	}
	match InvalidParameterCount::check_min(a, b) {
		Ok(()) => check(a >= b, 7, "a count is too small exactly if it is below the minimum"),
		Err(e) => check((a < b) & (e.actual == a) & (e.expected == ExpectedCount::Min(b)), 8, "the error names both counts"),
	}
	let (x, y) = (a as u8, b as u8);
	match InvalidPacketId::check(x, y) {
		Ok(()) => check(x == y, 9, "IDs match exactly if they are equal"),
		Err(e) => check((x != y) & (e.actual == x) & (e.expected == Some(y)), 10, "the error names both IDs"),
	}
	match InvalidPacketId::check_ignore_broadcast(x, y) {
		Ok(()) => check((x == y) | (y == spec::BROADCAST), 11, "every ID matches the broadcast ID"),
		Err(e) => check((x != y) & (y != spec::BROADCAST) & (e.actual == x) & (e.expected == Some(y)), 12, "the error names both IDs"),
	}
	match InvalidInstruction::check(x, y) {
		Ok(()) => check(x == y, 13, "instructions match exactly if they are equal"),
		Err(e) => check((x != y) & (e.actual == x) & (e.expected == y), 14, "the error names both instructions"),
	}
	let (h, k) = (any_u32().to_le_bytes(), any_u32().to_le_bytes());
	match InvalidHeaderPrefix::check(&h, k) {
		Ok(()) => check(eq(&h, &k), 15, "prefixes match exactly if they are equal"),
		Err(e) => check(!eq(&h, &k) & eq(&e.actual, &h) & eq(&e.expected, &k), 16, "the error names both prefixes"),
	}
	cover(1);
}
