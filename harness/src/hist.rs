//! Operations in sequence: what an earlier operation left behind does not matter.

use crate::ops::*;
use crate::rt::*;
use crate::spec::{self, Bytes};
use crate::world::*;
use alloc::vec::Vec;
use core::time::Duration;

fn any_params(n: usize) -> Bytes {
	let mut d = Bytes::new();
	for i in 0..n {
		d.push(if i < 4 { any_u8() } else { 0x5A });
	}
	d
}

/// Operation `param(0)`, disturbed as given by `param(2)`, then operation `param(1)`, answered by an arbitrary status
/// packet: the second operation behaves as on a fresh client. Chunks `param(3)`; `param(4)` is a size.
#[no_mangle]
pub extern "C" fn h_hist() {
	let (op1, op2, kind, mode, size) = (param(0), param(1), param(2), param(3), param(4));
	let w = World::new();
	let id = any_u8();
	assume(id != spec::BROADCAST);
	let a1 = Args::plain(id);
	let id2 = if choose(2) == 0 {
		id
	} else {
		let x = any_u8();
		assume(x != spec::BROADCAST);
		x
	};
	let a2 = Args::plain(id2);
	let (_, _, n1) = wire(op1, &a1);
	let (ins2, p2, n2) = wire(op2, &a2);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	w.barrier(0);
	let reply1 = spec::status(id, 0, any_params(n1).s());
	let old = spec::status(id2, 0, any_params(n2).s());
	let mut writes = 1;
	match kind {
		// arbitrary bytes
		0 => w.feed_any(size),
		// arbitrary bytes behind a header
		1 => {
			w.feed(&[0xFF, 0xFF, 0xFD, 0x00]);
			w.feed_any(size);
		},
		// the reply and, unasked for, something that looks like the reply to the next operation
		2 => {
			w.feed(reply1.s());
			w.feed(old.s());
		},
		// the reply and a part of something that looks like the reply to the next operation
		3 => {
			w.feed(reply1.s());
			let k = pick(1, old.n - 1);
			w.feed(&old.b[..k]);
		},
		// a part of a reply
		4 => {
			let k = pick(1, old.n - 1);
			w.feed(&old.b[..k]);
		},
		// the reply comes too late
		5 => {
			w.feed(if choose(2) == 0 { reply1.s() } else { old.s() });
			w.m().fault_kind = b'R';
			w.m().fault_err = E::Timeout;
			w.m().fault_on = true;
		},
		// a failure of the serial port
		_ => {
			w.feed(reply1.s());
			w.feed(old.s());
			w.m().fault_kind = [b'D', b'W', b'R'][choose(3) as usize];
			w.m().fault_err = E::Io(3);
			w.m().fault_on = true;
		},
	}
	w.m().calls = 0;
	crate::recv::chunk(&w, mode);
	let got1 = run(op1, &mut c, &a1);
	got1.obs();
	w.m().fault_on = false;
	if matches!(got1, R::WDiscard(_) | R::WWrite(_)) {
		// nothing was transmitted: what arrived stays in front of the next transmission
		writes = 0;
		w.m().arrive[0] = w.m().rx_len;
	} else {
		w.barrier(1);
	}
	let sent = w.m().tx_len;
	let rid = any_u8();
	let err = any_u8();
	let d2 = any_params(n2);
	w.feed(spec::status(rid, err, d2.s()).s());
	let dl = w.m().deadlines;
	let got = run(op2, &mut c, &a2);
	got.obs();
	check(w.m().writes == writes + 1, 1, "an operation transmits one packet, whatever happened before");
	check(eq(&w.sent()[sent..], spec::frame(id2, ins2, p2.s()).s()), 2, "the packet of an operation does not depend on what happened before");
	judge(&got, id2, n2, rid, err, d2.s(), 10);
	check(w.m().deadlines == dl + 1 && !w.m().wrong_deadline, 3, "an operation has a deadline of its own");
	check(w.m().pos == w.m().rx_len, 4, "the reply of an operation is read completely");
	cover(if got.is_ok() { 1 } else { 2 });
	if got1.is_ok() {
		cover(3);
	}
}

/// A multi-motor read of which `param(1)` responses were taken and which was then dropped or forgotten, then operation
/// `param(0)`; `param(2)`: variant, `param(3)`: number of replies that arrived.
#[no_mangle]
pub extern "C" fn h_hist_iter() {
	let (op2, take, kind, arrived) = (param(0), param(1), param(2), param(3));
	let w = World::new();
	let ids = [any_u8(), any_u8(), any_u8()];
	let id2 = any_u8();
	assume(id2 != spec::BROADCAST);
	w.barrier(0);
	for j in 0..arrived {
		let x = [any_u8(), any_u8()];
		if kind == 2 {
			w.feed(spec::status(ids[j], 0, &[x[0], x[1], 7]).s());
		} else {
			w.feed(spec::status(ids[j], 0, &x).s());
		}
	}
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let leak = choose(2) == 1;
	macro_rules! go {
		($e:expr, $it:ident => $next:expr) => {{
			match $e {
				Ok(mut $it) => {
					for _ in 0..take {
						let _ = $next;
					}
					if leak {
						core::mem::forget($it);
					}
				},
				Err(_) => check(false, 5, "the instruction is transmitted"),
			}
		}};
	}
	match kind {
		0 => go!(c.sync_read::<u16>(&ids, 3), it => it.read_next()),
		1 => go!(c.sync_read_bytes::<Vec<u8>>(&ids, 3, 2), it => it.read_next()),
		_ => go!(c.scan(), it => it.scan_next()),
	}
	w.barrier(1);
	let sent = w.m().tx_len;
	let a2 = Args::plain(id2);
	let (ins2, p2, n2) = wire(op2, &a2);
	let (rid, err) = (any_u8(), any_u8());
	let d2 = any_params(n2);
	w.feed(spec::status(rid, err, d2.s()).s());
	let got = run(op2, &mut c, &a2);
	got.obs();
	check(w.m().writes == 2, 1, "an operation transmits one packet, whatever happened before");
	check(eq(&w.sent()[sent..], spec::frame(id2, ins2, p2.s()).s()), 2, "the packet of an operation does not depend on what happened before");
	judge(&got, id2, n2, rid, err, d2.s(), 10);
	cover(if got.is_ok() { 1 } else { 2 });
	if leak {
		cover(3);
	}
}

/// A device: an instruction, its reply, arbitrary bytes in between, and the next instruction.
/// `param(0)` arbitrary bytes behind the first instruction, `param(1)` leading header bytes, `param(2)` chunks,
/// `param(3)` parameters of both instructions.
#[no_mangle]
pub extern "C" fn h_hist_device() {
	let (junk, pre, mode, n) = (param(0), param(1), param(2), param(3));
	let w = World::new();
	let (i1, i2) = (any_u8(), any_u8());
	let (p1, p2) = (any_params(n), any_params(n));
	// everything up to here arrives before the first status packet is transmitted
	w.feed(spec::frame(i1, spec::WRITE, p1.s()).s());
	w.feed(&[0xFF, 0xFF, 0xFD, 0x00][..pre]);
	w.feed_any(junk);
	w.barrier(0);
	w.feed(spec::frame(i2, spec::REG_WRITE, p2.s()).s());
	crate::recv::chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut d = w.device(&mut r, &mut b);
	let t = Duration::from_millis(5);
	match d.read_raw_instruction_timeout(t) {
		Ok(i) => check((i.packet_id() == i1) & (i.instruction_id() == spec::WRITE) & eq(i.parameters(), p1.s()), 1, "the first instruction is received"),
		Err(_) => check(false, 2, "the first instruction is received"),
	}
	let e = any_u8();
	check(d.write_status_error(i1, e).is_ok(), 3, "the status packet is transmitted");
	check(w.sent_is(spec::status(i1, e, &[]).s()), 4, "the status packet is transmitted");
	match d.read_raw_instruction_timeout(t) {
		Ok(i) => check((i.packet_id() == i2) & (i.instruction_id() == spec::REG_WRITE) & eq(i.parameters(), p2.s()), 5, "the next instruction is received"),
		Err(_) => check(false, 6, "the next instruction is received"),
	}
	cover(1);
}

/// A read that fails at an arbitrary point (time-out or other failure) loses nothing: reading again gives the packets
/// that arrive. `param(0)` packets of `param(1)` parameters, pieces of `param(2)` bytes, `param(3)` 0: client, 1: device.
#[no_mangle]
pub extern "C" fn h_resume() {
	let (k, np, max, dev) = (param(0), param(1), param(2), param(3) == 1);
	let w = World::new();
	let mut ids = [0u8; 4];
	let mut ps = [Bytes::new(); 4];
	for j in 0..k {
		ids[j] = any_u8();
		ps[j] = any_params(np);
		w.feed(if dev { spec::frame(ids[j], spec::WRITE, ps[j].s()) } else { spec::status(ids[j], 0, ps[j].s()) }.s());
	}
	w.m().chunk = Chunk::Max(max);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let (mut r2, mut b2) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let mut d = w.device(&mut r2, &mut b2);
	let err = if choose(2) == 0 { E::Timeout } else { E::Io(4) };
	w.m().calls = 0;
	w.m().fault_kind = b'R';
	w.m().fault_err = err;
	w.m().fault_at = choose((w.m().rx_len / max + 2) as u32);
	w.m().fault_on = true;
	let mut j = 0;
	let mut failures = 0;
	while j < k {
		let got = if dev {
			match d.read_raw_instruction_timeout(Duration::from_millis(1)) {
				Ok(i) => ok(i.packet_id(), false, i.parameters()),
				Err(e) => rerr(e),
			}
		} else {
			crate::recv::status(&mut c)
		};
		got.obs();
		if let R::Io(e) = got {
			check(e == err, 1, "a failed read carries the error of the serial port");
			failures += 1;
			check(failures == w.m().fault_hits && failures <= 1, 2, "only a failed read is reported as such");
		} else {
			check(got.same(&ok(ids[j], false, ps[j].s())), 3, "a read that failed loses nothing");
			j += 1;
		}
	}
	if failures > 0 {
		cover(1);
	} else {
		cover(2);
	}
}

/// Operation `param(0)` with a good reply and `param(4)` arbitrary bytes behind it (plus 10: its reply stops short), then operation `param(1)` with what
/// arrives being anything: the second operation fares exactly as on a fresh client, whatever it gets.
/// `param(2)` 0: a status packet without its first bytes (any number of them), 1: `param(3)` arbitrary bytes,
/// 2: a part of a header, then `param(3)` arbitrary bytes, 3: a status packet whose end is missing.
#[no_mangle]
pub extern "C" fn h_hist_fresh() {
	let (op1, op2, kind, size, junk) = (param(0), param(1), param(2), param(3), param(4));
	let (w, v) = (World::new(), World::new());
	let id = any_u8();
	assume(id != spec::BROADCAST);
	let a = Args::plain(id);
	let (_, _, n1) = wire(op1, &a);
	let (_, _, n2) = wire(op2, &a);
	let (mut r, mut b) = ([0u8; 40], [0u8; 40]);
	let mut c = w.client(&mut r, &mut b);
	w.barrier(0);
	let first = spec::status(id, 0, any_params(n1).s());
	let cut = if junk < 10 { first.n } else { choose(first.n as u32) as usize };
	w.feed(&first.s()[..cut]);
	w.feed_any(junk % 10);
	let got1 = run(op1, &mut c, &a);
	check(got1.is_ok() || cut < first.n, 1, "the first operation succeeds");
	w.barrier(1);
	v.barrier(0);
	let start = w.m().rx_len;
	let full = spec::status(id, 0, any_params(n2).s());
	match kind {
		0 => w.feed(&full.s()[choose(full.n as u32 + 1) as usize..]),
		1 => w.feed_any(size),
		2 => {
			w.feed(&[0xFF, 0xFF, 0xFD, 0x00][choose(4) as usize..]);
			w.feed_any(size);
		},
		_ => w.feed(&full.s()[..choose(full.n as u32) as usize]),
	}
	v.feed(&w.m().rx[start..w.m().rx_len]);
	let sent = w.m().tx_len;
	let old = w.m().deadlines;
	let reads = w.m().reads;
	let got = run(op2, &mut c, &a);
	got.obs();
	let (mut r2, mut b2) = ([0u8; 40], [0u8; 40]);
	let mut f = v.client(&mut r2, &mut b2);
	let fresh = run(op2, &mut f, &a);
	check(got.same(&fresh), 2, "an operation fares as on a fresh client");
	check(eq(&w.sent()[sent..], v.sent()), 3, "an operation transmits what a fresh client would");
	check(w.m().pos - start == v.m().pos, 4, "an operation reads what a fresh client would");
	check(w.m().reads - reads == v.m().reads && w.m().deadlines - old == v.m().deadlines && w.m().last == v.m().last, 5, "an operation waits as long as a fresh client");
	cover(if got.is_ok() { 1 } else { 2 });
}

/// A device: an instruction and `param(0)` arbitrary bytes, a status packet, and then `param(1)` = 0: an instruction
/// without its first bytes, 1: `param(2)` arbitrary bytes, 2: a part of a header and arbitrary bytes: what the device
/// makes of them is what a new device makes of them.
#[no_mangle]
pub extern "C" fn h_hist_fresh_device() {
	let (junk, kind, size) = (param(0), param(1), param(2));
	let (w, v) = (World::new(), World::new());
	let id = any_u8();
	let t = Duration::from_millis(5);
	let (mut r, mut b) = ([0u8; 40], [0u8; 40]);
	let mut d = w.device(&mut r, &mut b);
	w.feed(spec::frame(id, spec::READ, any_params(4).s()).s());
	w.feed_any(junk);
	w.barrier(0);
	let read = |d: &mut dynamixel2::Device<Port<'_>, &mut [u8]>| match d.read_raw_instruction_timeout(t) {
		Ok(i) => (ok(i.packet_id(), false, i.parameters()), i.instruction_id()),
		Err(e) => (rerr(e), 0),
	};
	check(read(&mut d).0.is_ok(), 1, "the first instruction is received");
	check(d.write_status(id, 0, 3, |b| { b.fill(0xFF); Ok(()) }).is_ok(), 2, "the status packet is transmitted");
	let start = w.m().rx_len;
	let full = spec::frame(id, spec::WRITE, any_params(4).s());
	match kind {
		0 => w.feed(&full.s()[choose(full.n as u32 + 1) as usize..]),
		1 => w.feed_any(size),
		_ => {
			w.feed(&[0xFF, 0xFF, 0xFD, 0x00][choose(4) as usize..]);
			w.feed_any(size);
		},
	}
	v.feed(&w.m().rx[start..w.m().rx_len]);
	let (mut r2, mut b2) = ([0u8; 40], [0u8; 40]);
	let mut f = v.device(&mut r2, &mut b2);
	let mut good = false;
	for _ in 0..2 {
		let (got, fresh) = (read(&mut d), read(&mut f));
		got.0.obs();
		check(got.0.same(&fresh.0) && got.1 == fresh.1, 3, "a device receives what a new device would");
		check(w.m().pos - start == v.m().pos, 4, "a device reads what a new device would");
		good |= got.0.is_ok();
	}
	cover(if good { 1 } else { 2 });
}
