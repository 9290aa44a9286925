//! Time-outs and baud rates.

use crate::ops::*;
use crate::rt::*;
use crate::spec::{self, Bytes};
use crate::world::*;
use alloc::vec::Vec;
use core::time::Duration;
use dynamixel2::instructions::BulkReadData;

/// Baud rates: those of the motors, and extreme ones.
pub const BAUDS: [u32; 16] =
	[57_600, 9_600, 115_200, 1_000_000, 2_000_000, 3_000_000, 4_000_000, 4_500_000, 6_000_000, 10_500_000, 19_200, 1_200, 300, 1, 7, 4_000_000_000];

/// The time to transfer `bytes` bytes of ten bits, rounded up to nanoseconds.
pub fn transfer(bytes: u64, baud: u32) -> Duration {
	let ns = bytes * 10 * 1_000_000_000;
	let b = baud as u64;
	let ns = ns / b + (ns % b != 0) as u64;
	Duration::from_nanos(ns)
}
pub fn reply(params: usize, baud: u32) -> Duration {
	transfer(11 + params as u64, baud) + Duration::from_millis(34)
}

/// Operation `param(0)`: one deadline, made after the transmission, long enough for the reply plus 34 ms, is used for
/// every read of the reply, whatever the pieces it arrives in.
#[no_mangle]
pub extern "C" fn h_time_op() {
	let op = param(0);
	let w = World::new();
	let id = any_u8();
	assume(id != spec::BROADCAST);
	let a = Args::plain(id);
	let (_, _, n) = wire(op, &a);
	let baud = BAUDS[choose(16) as usize];
	w.m().baud = baud;
	let mut d = Bytes::new();
	for i in 0..n {
		d.push(if i < 2 { any_u8() } else { 0x33 });
	}
	w.barrier(0);
	w.feed(spec::status(id, 0, d.s()).s());
	w.m().chunk = Chunk::Max(3);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	if choose(2) == 1 {
		// the rate was changed since
		let other = BAUDS[choose(3) as usize + 1];
		w.m().baud = 1;
		check(c.set_baud_rate(other).is_ok(), 1, "setting the baud rate succeeds");
		check(w.m().baud == other, 2, "the baud rate is passed to the serial port");
	}
	let baud = w.m().baud;
	w.m().ev_n = 0;
	let got = run(op, &mut c, &a);
	check(got.is_ok(), 3, "the operation succeeds");
	let m = w.m();
	check(m.deadlines == 1, 4, "one deadline holds for the whole reply");
	check(!m.wrong_deadline, 5, "all reads use the deadline of the operation");
	check(m.last == reply(n, baud), 6, "the time-out is the time to transfer the reply plus 34 ms");
	let mut written = false;
	for i in 0..m.ev_n {
		if m.ev[i] == b'W' {
			written = true;
		}
		if m.ev[i] == b'M' {
			check(written, 7, "the deadline is made after the transmission");
		}
	}
	obs(m.last.as_nanos() as u64);
	cover(1);
}

/// A raw response with `param(1)` up to `param(1) + param(2) - 1` announced parameters at baud rate number `param(0)`.
#[no_mangle]
pub extern "C" fn h_time_count() {
	let baud = BAUDS[param(0)];
	let w = World::new();
	w.m().baud = baud;
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut c = w.client(&mut r, &mut b);
	let (base, low) = (param(1) as u16, any_u16());
	assume(low < param(2) as u16);
	let n = base + low;
	let _ = c.read_status_response(n);
	let t = w.m().last;
	check(w.m().deadlines == 1, 1, "one deadline is made");
	check(t == reply(n as usize, baud), 2, "the time-out is the time to transfer the reply plus 34 ms");
	cover(1);
}

/// An explicit time-out is used as it is.
#[no_mangle]
pub extern "C" fn h_time_explicit() {
	let w = World::new();
	let secs = any_u32() as u64;
	let ns = any_u32();
	assume(ns < 1_000_000_000);
	let t = Duration::new(secs, ns);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let f = spec::status(3, 0, &[1, 2, 3]);
	if choose(2) == 1 {
		w.feed(f.s());
	}
	w.m().chunk = Chunk::Max(4);
	match choose(4) {
		0 => {
			let mut c = w.client(&mut r, &mut b);
			let _ = c.read_status_response_timeout(t);
		},
		1 => {
			let mut d = w.device(&mut r, &mut b);
			let _ = d.read(t);
		},
		2 => {
			let mut d = w.device(&mut r, &mut b);
			let _ = d.read_owned(t);
		},
		_ => {
			let mut d = w.device(&mut r, &mut b);
			let _ = d.read_raw_instruction_timeout(t);
		},
	}
	check(w.m().deadlines == 1, 1, "one deadline is made");
	check(w.m().last == t, 2, "the deadline is the one that was asked for");
	check(!w.m().wrong_deadline, 3, "all reads use that deadline");
	cover(1);
}

/// Multi-motor reads and scans at baud rate number `param(1)`, variant `param(0)`.
#[no_mangle]
pub extern "C" fn h_time_sync() {
	let kind = param(0);
	let baud = BAUDS[param(1)];
	let w = World::new();
	w.m().baud = baud;
	let (mut r, mut b) = ([0u8; 64], [0u8; 96]);
	let mut c = w.client(&mut r, &mut b);
	w.barrier(0);
	let ids = [any_u8(), any_u8(), any_u8()];
	let mut want = [Duration::ZERO; 3];
	// the first reply comes, the others do not
	let taken = choose(3) as usize;
	match kind {
		0 => {
			want = [reply(4, baud); 3];
			w.feed(spec::status(ids[0], 0, &[1, 2, 3, 4]).s());
			if let Ok(mut it) = c.sync_read::<u32>(&ids, 7) {
				for _ in 0..taken {
					it.read_next();
				}
			}
		},
		1 => {
			let n = [0usize, 1, 5, 17, 200, 65_535][choose(6) as usize];
			want = [reply(n, baud); 3];
			if let Ok(mut it) = c.sync_read_bytes::<Vec<u8>>(&ids, 7, n as u16) {
				for _ in 0..taken {
					it.read_next();
				}
			}
		},
		2 => {
			let n = [[0usize, 1, 5], [17, 4, 2], [3, 200, 65_535]][choose(3) as usize];
			for j in 0..3 {
				want[j] = reply(n[j], baud);
			}
			let v = [0, 1, 2].map(|i| BulkReadData { motor_id: i as u8, address: 7, count: n[i] as u16 });
			if let Ok(mut it) = c.bulk_read_bytes::<Vec<u8>>(&v) {
				for _ in 0..taken {
					it.read_next();
				}
			};
		},
		_ => {
			want = [crate::sync::scan_timeout(baud); 3];
			w.feed(spec::status(ids[0], 0, &[1, 2, 3]).s());
			w.feed(spec::status(ids[1], 0, &[1, 2, 3]).s());
			if let Ok(mut it) = c.scan() {
				for _ in 0..taken {
					it.scan_next();
				}
			}
		},
	}
	check(w.m().deadlines == 3, 1, "every response has a deadline of its own");
	for j in 0..3 {
		check(w.m().dls[j] == want[j], 2, "the time-out is the time to transfer the replies plus 34 ms");
	}
	check(!w.m().wrong_deadline, 3, "all reads of a response use its deadline");
	cover(1);
}

/// Baud rates: what the serial port is set to, what is reported, and what happens when setting it fails.
#[no_mangle]
pub extern "C" fn h_baud() {
	let (b0, b1, b2) = (any_u32(), any_u32(), any_u32());
	let w = World::new();
	w.m().baud = b0;
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let fail = choose(4);
	let err = if choose(2) == 0 { E::Io(any_u8()) } else { E::Timeout };
	w.m().fault_kind = b'B';
	w.m().fault_err = err;
	w.m().fault_at = fail;
	w.m().fault_on = fail < 3;
	macro_rules! go {
		($c:ident) => {{
			check($c.baud_rate() == b0, 1, "the initial baud rate is that of the serial port");
			let mut now = b0;
			for (i, b) in [b1, b2, b0].into_iter().enumerate() {
				match $c.set_baud_rate(b) {
					Ok(()) => {
						check(fail != i as u32, 2, "a failure to set the baud rate is reported");
						now = b;
					},
					Err(e) => {
						check(fail == i as u32, 3, "setting the baud rate succeeds if the serial port accepts it");
						check(e == err, 4, "a failure to set the baud rate carries the error of the serial port");
						cover(2);
					},
				}
				check(w.m().baud == now, 5, "the serial port runs at the baud rate that was set last");
				check($c.baud_rate() == now, 6, "the reported baud rate is that of the serial port");
			}
			check(w.m().tx_len == 0, 7, "changing the baud rate transmits nothing");
			let p = $c.into_serial_port();
			check(core::ptr::eq(p.0, &w), 8, "the serial port is handed back");
			obs(now as u64);
			cover(1);
		}};
	}
	if choose(2) == 0 {
		let mut c = w.client(&mut r, &mut b);
		go!(c)
	} else {
		let mut c = w.device(&mut r, &mut b);
		go!(c)
	}
}

/// Creating a client or device on a serial port that cannot tell its baud rate.
#[no_mangle]
pub extern "C" fn h_baud_unknown() {
	let w = World::new();
	w.m().fault_kind = b'b';
	w.m().fault_err = E::Io(9);
	w.m().fault_on = true;
	w.m().fault_forever = true;
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let e = match choose(4) {
		0 => dynamixel2::Client::with_buffers(w.port(), &mut r[..], &mut b[..]).err(),
		1 => dynamixel2::Device::with_buffers(w.port(), &mut r[..], &mut b[..]).err(),
		2 => dynamixel2::Client::new(w.port()).err(),
		_ => dynamixel2::Device::new(w.port()).err(),
	};
	check(e == Some(E::Io(9)), 1, "a failure to learn the baud rate is reported");
	cover(1);
}
