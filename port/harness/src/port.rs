//! The adapter of the `serial2` crate, and `open()`: against a serial port and a clock of the harness.

use crate::fake::*;
use crate::rt::*;
use crate::spec;
use core::time::Duration;
use dynamixel2::{Client, Device, ReadError, SerialPort as _};
use fakestd::io::{Error, ErrorKind};
use fakestd::time::Instant;
use serial2::{CharSize, FlowControl, Parity, SerialPort, StopBits};

/// Coarse: up to 16 s in steps of 1/238 s (and as few different values as that), else: up to 18 hours in nanoseconds.
fn any_duration(coarse: bool) -> Duration {
	let (s, n);
	if coarse {
		let x = any_u8();
		assume(x < 16);
		s = x as u16;
		n = (any_u8() as u32) << 22;
	} else {
		s = any_u16();
		n = any_u32();
	}
	assume(n < 1_000_000_000);
	Duration::new(s as u64, n)
}
fn any_bool() -> bool {
	choose(2) == 1
}

/// Time-outs and instants coarse if `param(0)` is 1. One read of the port: data arrive at any time, the deadline was made at any time, with any time-out.
#[no_mangle]
pub extern "C" fn h_port_read() {
	let coarse = param(0) == 1;
	let mut p = P::new();
	let p = p.install();
	let mut port = SerialPort::opened();
	let t0 = any_duration(coarse);
	set_now(t0);
	let timeout = any_duration(coarse);
	let deadline: Instant = port.make_deadline(timeout);
	check(deadline == Instant(t0 + timeout), 1, "a deadline is the time-out from now");
	let wait = any_duration(coarse);
	set_now(t0 + wait);
	let before = now();
	let at = any_duration(coarse);
	let data = [any_u8(), any_u8(), any_u8(), any_u8(), any_u8()];
	let n = pick(1, 5);
	p.arrive(&data[..n], at);
	let room = pick(1, 6);
	let mut buf = [0u8; 6];
	let r = dynamixel2::SerialPort::read(&mut port, &mut buf[..room], &deadline);
	check(p.sets == 0 && p.tx_len == 0 && p.discards == [0; 3], 2, "reading does nothing else to the port");
	let late = before > deadline.0;
	check(now() <= deadline.0 || (late && now() == before), 3, "reading does not wait past the deadline");
	match r {
		Ok(got) => {
			check(got > 0 && got <= n && got <= room, 4, "the number of bytes read");
			check(eq(&buf[..got], &data[..got]), 5, "the bytes that arrived are read");
			check(at <= deadline.0 || late, 6, "nothing that arrives after the deadline is read");
			cover(1);
		},
		Err(e) => {
			check(e.kind() == ErrorKind::TimedOut, 7, "the error is a time-out");
			check(now() >= deadline.0, 8, "a read does not time out before the deadline");
			check(late || at >= deadline.0, 9, "what arrives before the deadline is read");
			check(<SerialPort as dynamixel2::SerialPort>::is_timeout_error(&e), 10, "a time-out counts as a time-out");
			if late {
				cover(2);
			} else {
				cover(3);
			}
		},
	}
	obs(now().as_secs());
}

/// Exactly the errors of kind `TimedOut` are time-outs.
#[no_mangle]
pub extern "C" fn h_port_timeout_error() {
	let k = KINDS[choose(20) as usize];
	let e = if any_bool() { Error::from(k) } else { Error::made(k, any_u8() as i32) };
	let r = <SerialPort as dynamixel2::SerialPort>::is_timeout_error(&e);
	check(r == (k == ErrorKind::TimedOut), 1, "exactly the errors of kind TimedOut are time-outs");
	cover(r as u32);
}

/// A failing call `param(0)` of the port, with any error.
#[no_mangle]
pub extern "C" fn h_port_error() {
	let mut p = P::new();
	let p = p.install();
	p.fail = param(0) as u8;
	p.fail_kind = KINDS[choose(20) as usize];
	p.fail_code = any_u16() as i32;
	let mut port = SerialPort::opened();
	p.arrive(&[1, 2, 3], Duration::ZERO);
	let old = p.settings.clone();
	let r = match p.fail {
		1 => Client::open("/dev/ttyX7", 9600).map(|_| ()),
		2 => {
			if any_bool() {
				dynamixel2::SerialPort::baud_rate(&port).map(|_| ())
			} else {
				dynamixel2::SerialPort::set_baud_rate(&mut port, 9600)
			}
		},
		3 => dynamixel2::SerialPort::set_baud_rate(&mut port, 9600),
		4 | 7 => {
			let d = port.make_deadline(Duration::from_secs(1));
			dynamixel2::SerialPort::read(&mut port, &mut [0; 4], &d).map(|_| ())
		},
		5 => dynamixel2::SerialPort::write_all(&mut port, &[1, 2, 3]),
		6 => dynamixel2::SerialPort::discard_input_buffer(&mut port),
		8 => {
			p.settings.refuse = Some(p.fail_code as u8);
			p.fail_kind = ErrorKind::Other;
			p.fail_code = p.fail_code as u8 as i32;
			let r = dynamixel2::SerialPort::set_baud_rate(&mut port, 9600);
			p.settings.refuse = None;
			r
		},
		_ => {
			p.settings.unknown = Some(p.fail_code as u8);
			p.fail_kind = ErrorKind::Other;
			p.fail_code = p.fail_code as u8 as i32;
			let r = dynamixel2::SerialPort::baud_rate(&port).map(|_| ());
			p.settings.unknown = None;
			r
		},
	};
	match r {
		Ok(()) => check(false, 1, "an error of the port is an error"),
		Err(e) => check(p.is_mine(&e), 2, "the error of the port is passed on"),
	}
	check(p.settings == old, 3, "the settings are as they were");
	cover(1);
}

/// Baud rates, and discarding received data, and writing.
#[no_mangle]
pub extern "C" fn h_port_calls() {
	let mut p = P::new();
	let p = p.install();
	let mut port = SerialPort::opened();
	p.settings.baud = any_u32();
	p.settings.other = any_u8();
	p.settings.raw = any_bool();
	let mut old = p.settings.clone();
	match choose(4) {
		0 => {
			let r = dynamixel2::SerialPort::baud_rate(&port);
			check(matches!(r, Ok(b) if b == old.baud), 1, "the baud rate is the one of the port");
			check(p.sets == 0, 2, "asking for the baud rate does not change the settings");
		},
		1 => {
			let b = any_u32();
			let r = dynamixel2::SerialPort::set_baud_rate(&mut port, b);
			check(r.is_ok(), 3, "the baud rate can be set");
			old.baud = b;
		},
		2 => {
			p.arrive(&[1, 2, 3], Duration::ZERO);
			p.arrive(&[4, 5, 6], Duration::from_secs(2));
			let r = dynamixel2::SerialPort::discard_input_buffer(&mut port);
			check(r.is_ok(), 4, "received data can be discarded");
			check(p.discards[0] + p.discards[2] == 0 && p.discards[1] > 0, 5, "what was received is discarded, and nothing that is being sent");
			check(p.pos == 3 && p.reads == 0, 6, "exactly what has arrived is discarded");
		},
		_ => {
			let n = pick(0, 9);
			let mut d = [0u8; 9];
			fill_any(&mut d[..n]);
			let r = dynamixel2::SerialPort::write_all(&mut port, &d[..n]);
			check(r.is_ok(), 7, "writing succeeds");
			check(p.tx_len == n && eq(&p.tx[..n], &d[..n]), 8, "everything is written, once");
		},
	}
	check(p.settings == old, 9, "the other settings are as they were");
	cover(1);
}

/// Opening a port by its path: `param(0)`: 0 client, 1 device, 2 client with buffers, 3 device with buffers.
#[no_mangle]
pub extern "C" fn h_port_open() {
	let kind = param(0);
	let mut p = P::new();
	let p = p.install();
	p.settings.baud = any_u32();
	let baud = any_u32();
	if baud == p.settings.baud {
		cover(1);
	} else {
		cover(2);
	}
	let (mut b0, mut b1) = ([0u8; 24], [0u8; 40]);
	let mut c0 = None;
	let mut c2 = None;
	let mut d1 = None;
	let mut d3 = None;
	let got = match kind {
		0 => {
			c0 = Client::open("/dev/ttyX7", baud).ok();
			c0.as_ref().map(|c| c.baud_rate())
		},
		1 => {
			d1 = Device::open("/dev/ttyX7", baud).ok();
			d1.as_ref().map(|c| c.baud_rate())
		},
		2 => {
			c2 = Client::open_with_buffers("/dev/ttyX7", baud, &mut b0[..], &mut b1[..]).ok();
			c2.as_ref().map(|c| c.baud_rate())
		},
		_ => {
			d3 = Device::open_with_buffers("/dev/ttyX7", baud, &mut b0[..], &mut b1[..]).ok();
			d3.as_ref().map(|c| c.baud_rate())
		},
	};
	check(got == Some(baud), 1, "the baud rate of the client or device is the one asked for");
	check(p.opens == 1 && p.path_ok, 2, "the port asked for is opened");
	let s = &p.settings;
	check(s.baud == baud, 3, "the port is opened with the baud rate asked for");
	check(
		s.raw && s.char_size == CharSize::Bits8 && s.stop_bits == StopBits::One && s.parity == Parity::None && s.flow_control == FlowControl::None,
		4,
		"the port is opened in raw mode with eight bits, no parity and one stop bit",
	);
	// the sizes of the buffers
	let (write, read) = if kind < 2 { (128, 128) } else { (40, 24) };
	let n = write - if kind & 1 == 0 { 10 } else { 11 };
	for (n, fits) in [(n, true), (n + 1, false)] {
		p.tx_len = 0;
		let r = match (&mut c0, &mut d1, &mut c2, &mut d3) {
			(Some(c), _, _, _) => c.write_instruction(1, 3, n, |_| Ok(())).is_ok(),
			(_, Some(c), _, _) => c.write_status(1, 0, n, |_| Ok(())).is_ok(),
			(_, _, Some(c), _) => c.write_instruction(1, 3, n, |_| Ok(())).is_ok(),
			(_, _, _, Some(c)) => c.write_status(1, 0, n, |_| Ok(())).is_ok(),
			_ => fits,
		};
		check(r == fits, 5, "the size of the write buffer");
		check(p.tx_len == if fits { write } else { 0 }, 6, "a packet that fits is sent");
	}
	let t = Duration::from_millis(5);
	match (&mut c0, &mut d1, &mut c2, &mut d3) {
		(Some(c), _, _, _) => drop(c.read_status_response_timeout(t).is_ok()),
		(_, Some(c), _, _) => drop(c.read(t).is_ok()),
		(_, _, Some(c), _) => drop(c.read_status_response_timeout(t).is_ok()),
		(_, _, _, Some(c)) => drop(c.read(t).is_ok()),
		_ => (),
	}
	check(p.room == read, 7, "the size of the read buffer");
	obs(s.baud as u64);
}

/// The deadline of any time-out up to 2^48 s.
#[no_mangle]
pub extern "C" fn h_port_deadline() {
	let any = |max: u64| {
		let s = ((any_u32() as u64) << 16) | any_u16() as u64;
		assume(s < max);
		let n = any_u32();
		assume(n < 1_000_000_000);
		Duration::new(s, n)
	};
	let mut p = P::new();
	let p = p.install();
	let port = SerialPort::opened();
	let t0 = any(1 << 32);
	set_now(t0);
	let timeout = any(1 << 48);
	let d: Instant = port.make_deadline(timeout);
	check(d.0 >= t0 && d.0 - t0 == timeout, 1, "a deadline is the time-out from now, however long it is");
	check(now() == t0 && p.reads == 0 && p.sets == 0 && p.tx_len == 0 && p.discards == [0; 3], 2, "making a deadline does nothing to the port");
	cover(1);
}

/// A port that is opened already: its baud rate is used.
#[no_mangle]
pub extern "C" fn h_port_new() {
	let mut p = P::new();
	let p = p.install();
	p.settings.baud = any_u32();
	let got = if any_bool() { Client::new(SerialPort::opened()).ok().map(|c| c.baud_rate()) } else { Device::new(SerialPort::opened()).ok().map(|c| c.baud_rate()) };
	check(got == Some(p.settings.baud), 1, "the baud rate is the one of the port");
	check(p.sets == 0, 2, "the settings are not changed");
	cover(1);
}

/// Operation `param(0)` with a reply (or `param(2)` = 1: noise) that arrives in `param(1)` pieces at any times (coarse
/// if `param(3)` is 1): it is received if it comes in time, and no wait goes past the deadline.
#[no_mangle]
pub extern "C" fn h_port_op() {
	let (op, pieces, noise, coarse) = (param(0), param(1), param(2) == 1, param(3) == 1);
	let mut p = P::new();
	let p = p.install();
	p.settings.baud = 1_000_000;
	if noise {
		set_now(Duration::from_millis(5_700));
		p.write_takes = Duration::from_millis(800);
	} else {
		set_now(any_duration(coarse));
		p.write_takes = any_duration(coarse);
	}
	let start = now() + if op == 0 || op == 3 { Duration::ZERO } else { p.write_takes };
	let f = match op {
		0 => spec::status(7, 0, &[1, 2]),
		1 => spec::status(7, 0, &[1, 2, 3]),
		2 => spec::status(7, 0, &[1, 2]),
		3 => spec::frame(7, 1, &[]),
		_ => spec::status(7, 0, &[]),
	};
	let f = f.s();
	let limit = match op {
		0 | 3 => any_duration(coarse),
		1 => Duration::from_micros(140) + Duration::from_millis(34),
		2 => Duration::from_micros(130) + Duration::from_millis(34),
		_ => Duration::from_micros(110) + Duration::from_millis(34),
	};
	let mut at = start;
	let mut done = 0;
	for i in 0..pieces {
		let d = any_duration(coarse);
		at = at + d;
		if i == 0 {
			// after the transmission
			assume(d > Duration::ZERO);
		}
		let e = if i + 1 == pieces { f.len() } else { f.len() * (i + 1) / pieces };
		if noise {
			p.arrive(&[0xFF, 0xFF, 0xFD][..1 + i % 3], at);
		} else {
			p.arrive(&f[done..e], at);
		}
		done = e;
	}
	let deadline = start + limit;
	let last = at;
	let (ok, timeout) = match op {
		3 => match Device::new(SerialPort::opened()) {
			Ok(mut d) => match d.read(limit) {
				Ok(_) => (true, false),
				Err(ReadError::Io(e)) => (false, e.kind() == ErrorKind::TimedOut),
				Err(_) => (false, false),
			},
			Err(_) => (false, false),
		},
		_ => match Client::new(SerialPort::opened()) {
			Ok(mut c) => match op {
				0 => match c.read_status_response_timeout(limit) {
					Ok(_) => (true, false),
					Err(ReadError::Io(e)) => (false, e.kind() == ErrorKind::TimedOut),
					Err(_) => (false, false),
				},
				_ => {
					let r = match op {
						1 => c.ping(7).map(|_| ()),
						2 => c.read::<u16>(7, 3).map(|_| ()),
						_ => c.write::<u16>(7, 3, &5).map(|_| ()),
					};
					match r {
						Ok(()) => (true, false),
						Err(dynamixel2::TransferError::ReadError(ReadError::Io(e))) => (false, e.kind() == ErrorKind::TimedOut),
						Err(_) => (false, false),
					}
				},
			},
			Err(_) => (false, false),
		},
	};
	check(now() <= deadline, 1, "no operation waits past its deadline");
	check(ok || timeout, 2, "an operation succeeds or times out");
	if timeout {
		check(now() >= deadline, 3, "no operation times out before its deadline");
	}
	if noise {
		check(timeout, 4, "noise is no reply");
		cover(1);
	} else {
		if last < deadline {
			check(ok, 5, "a reply that comes in time is received");
			cover(2);
		}
		if last > deadline {
			check(timeout, 6, "a reply that comes too late is not received");
			cover(3);
		}
	}
	obs(ok as u64);
}

/// A scan with `param(0)` replies at any times: it ends when a reply is late.
#[no_mangle]
pub extern "C" fn h_port_scan() {
	let (n, coarse) = (param(0), param(1) == 1);
	let mut p = P::new();
	let p = p.install();
	p.settings.baud = 1_000_000;
	set_now(Duration::from_secs(5));
	// the time for 253 replies and 34 ms
	let limit = Duration::from_micros(69_420);
	let mut at = now();
	let mut expected = 0;
	let mut clear = true;
	for i in 0..n {
		let d = any_duration(coarse);
		assume(d > Duration::ZERO);
		at = at + d;
		// at the deadline itself, either is right
		assume(d != limit);
		clear &= d < limit;
		if clear {
			expected += 1;
		}
		p.arrive(spec::status(10 + i as u8, 0, &[1, 2, 3]).s(), at);
	}
	let mut c = match Client::new(SerialPort::opened()) {
		Ok(c) => c,
		Err(_) => return check(false, 1, "the client can be made"),
	};
	let mut found = 0;
	{
		let mut it = match c.scan() {
			Ok(it) => it,
			Err(_) => return check(false, 2, "the scan can be started"),
		};
		for _ in 0..n + 2 {
			match it.next() {
				Some(Ok(r)) => {
					check(r.motor_id == 10 + found as u8, 3, "the motors are found in the order of their replies");
					found += 1;
				},
				Some(Err(_)) => check(false, 4, "silence is no error"),
				None => break,
			}
		}
	}
	check(found == expected, 5, "the motors found are those that reply in time");
	obs(found as u64);
	obs(now().as_secs());
	cover(found as u32);
}
