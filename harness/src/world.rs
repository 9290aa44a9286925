//! The environment of the code under test: a serial port whose received bytes, chunking, arrival times and failures
//! are chosen by the harness (and so by the solver), and which records everything the code does with it.

use crate::rt::*;
use core::cell::UnsafeCell;
use core::time::Duration;
use dynamixel2::{Client, Device, SerialPort};

pub const N: usize = crate::spec::MAX;
pub const EV: usize = 96;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum E {
	Timeout,
	Io(u8),
}
impl core::fmt::Display for E {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		match self {
			E::Timeout => write!(f, "<too late>"),
			E::Io(x) => write!(f, "<number {}>", x),
		}
	}
}
/// An instant is the number of the `make_deadline` call and its timeout.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Dl {
	pub seq: u32,
	pub timeout: Duration,
}

/// How many bytes a `read` returns.
#[derive(Clone, Copy, PartialEq)]
pub enum Chunk {
	/// Everything available.
	All,
	/// At most this many bytes.
	Max(usize),
	/// Any number from 1 up to everything available (every possibility is explored).
	Any,
	/// Like `Any`, and possibly 0 bytes (limited by `zero_reads`).
	AnyOrZero,
}

pub struct W {
	/// All bytes that ever arrive.
	pub rx: [u8; N],
	pub rx_len: usize,
	/// Next byte to be delivered.
	pub pos: usize,
	/// `arrive[k]`: how many bytes have arrived before transmission number k+1.
	pub arrive: [usize; 8],
	pub chunk: Chunk,
	pub zero_reads: u32,
	/// Positions that no single read crosses.
	pub cuts: [usize; 4],
	/// Transmissions.
	pub tx: [u8; N],
	pub tx_len: usize,
	pub writes: u32,
	pub tx_end: [usize; 8],
	/// Number of calls so far.
	pub reads: u32,
	pub discards: u32,
	pub deadlines: u32,
	pub set_bauds: u32,
	pub budget: u32,
	/// The last `make_deadline`.
	pub last: Duration,
	pub dls: [Duration; 16],
	/// A read with a deadline other than the last one made.
	pub wrong_deadline: bool,
	/// A read into an empty buffer.
	pub empty_read: bool,
	pub baud: u32,
	/// Fail call number `fault_at` (of the calls of kind `fault_kind`, or of all calls if 0).
	pub fault_kind: u8,
	pub fault_at: u32,
	pub fault_err: E,
	pub fault_on: bool,
	pub fault_forever: bool,
	pub fault_hits: u32,
	pub calls: u32,
	pub ev: [u8; EV],
	pub ev_n: usize,
	/// Nothing may be transmitted.
	pub no_tx: bool,
}

/// Buffers are not empty to begin with: what was in them means nothing.
fn used(b: &mut [u8]) {
	for i in 0..b.len() {
		b[i] = [0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x04, 0x00, 0x55, 0x00][i % 9];
	}
}

pub struct World(UnsafeCell<W>);
impl World {
	pub fn new() -> World {
		World(UnsafeCell::new(W {
			rx: [0; N],
			rx_len: 0,
			pos: 0,
			arrive: [usize::MAX; 8],
			chunk: Chunk::All,
			zero_reads: 0,
			cuts: [0; 4],
			tx: [0; N],
			tx_len: 0,
			writes: 0,
			tx_end: [0; 8],
			reads: 0,
			discards: 0,
			deadlines: 0,
			set_bauds: 0,
			budget: 300,
			last: Duration::ZERO,
			dls: [Duration::ZERO; 16],
			wrong_deadline: false,
			empty_read: false,
			baud: 57_600,
			fault_kind: 0,
			fault_at: 0,
			fault_err: E::Timeout,
			fault_on: false,
			fault_forever: false,
			fault_hits: 0,
			calls: 0,
			ev: [0; EV],
			ev_n: 0,
			no_tx: false,
		}))
	}
	#[allow(clippy::mut_from_ref)]
	#[inline(always)]
	pub fn m(&self) -> &mut W {
		unsafe { &mut *self.0.get() }
	}
	/// Append bytes to what arrives.
	pub fn feed(&self, x: &[u8]) {
		let w = self.m();
		for i in 0..x.len() {
			w.rx[w.rx_len] = x[i];
			w.rx_len += 1;
		}
	}
	pub fn feed_any(&self, n: usize) {
		let w = self.m();
		for _ in 0..n {
			w.rx[w.rx_len] = any_u8();
			w.rx_len += 1;
		}
	}
	/// What was fed so far arrives before transmission number `k + 1`; what follows arrives after it.
	pub fn barrier(&self, k: usize) {
		let w = self.m();
		w.arrive[k] = w.rx_len;
	}
	pub fn port(&self) -> Port<'_> {
		Port(self)
	}
	pub fn sent(&self) -> &[u8] {
		&self.m().tx[..self.m().tx_len]
	}
	/// Is what was transmitted exactly this, in one write, preceded by exactly one discard of old input?
	pub fn sent_is(&self, x: &[u8]) -> bool {
		eq(self.sent(), x)
	}
	pub fn client<'a, 'b>(&'a self, r: &'b mut [u8], w: &'b mut [u8]) -> Client<Port<'a>, &'b mut [u8]> {
		used(r);
		used(w);
		match Client::with_buffers(Port(self), r, w) {
			Ok(c) => c,
			Err(_) => {
				check(false, 990, "creating a client failed");
				loop {}
			},
		}
	}
	pub fn device<'a, 'b>(&'a self, r: &'b mut [u8], w: &'b mut [u8]) -> Device<Port<'a>, &'b mut [u8]> {
		used(r);
		used(w);
		match Device::with_buffers(Port(self), r, w) {
			Ok(c) => c,
			Err(_) => {
				check(false, 991, "creating a device failed");
				loop {}
			},
		}
	}
}
impl W {
	fn call(&mut self, kind: u8) -> Result<(), E> {
		if self.ev_n < EV {
			self.ev[self.ev_n] = kind;
			self.ev_n += 1;
		}
		let k = self.calls;
		if self.fault_kind == 0 || self.fault_kind == kind {
			self.calls += 1;
			if self.fault_on && (k == self.fault_at || (self.fault_forever && k > self.fault_at)) {
				self.fault_hits += 1;
				return Err(self.fault_err);
			}
		}
		Ok(())
	}
	fn arrived(&self) -> usize {
		let k = self.writes as usize;
		let a = if k < 8 { self.arrive[k] } else { usize::MAX };
		if a < self.rx_len {
			a
		} else {
			self.rx_len
		}
	}
}

pub struct Port<'a>(pub &'a World);
impl<'a> SerialPort for Port<'a> {
	type Error = E;
	type Instant = Dl;
	fn baud_rate(&self) -> Result<u32, E> {
		self.0.m().call(b'b')?;
		Ok(self.0.m().baud)
	}
	fn set_baud_rate(&mut self, b: u32) -> Result<(), E> {
		let w = self.0.m();
		w.set_bauds += 1;
		w.call(b'B')?;
		w.baud = b;
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), E> {
		let w = self.0.m();
		w.discards += 1;
		w.call(b'D')?;
		let a = w.arrived();
		if w.arrive[0] != usize::MAX && a > w.pos {
			w.pos = a;
		}
		Ok(())
	}
	fn read(&mut self, buf: &mut [u8], d: &Dl) -> Result<usize, E> {
		let w = self.0.m();
		w.reads += 1;
		check(w.reads <= w.budget, 900, "the code keeps reading without ever returning");
		if d.seq != w.deadlines || d.timeout != w.last {
			w.wrong_deadline = true;
		}
		w.call(b'R')?;
		if buf.is_empty() {
			w.empty_read = true;
			return Ok(0);
		}
		let a = w.arrived();
		let avail = if a > w.pos { a - w.pos } else { 0 };
		if avail == 0 {
			return Err(E::Timeout);
		}
		let mut most = if avail < buf.len() { avail } else { buf.len() };
		for i in 0..4 {
			let c = w.cuts[i];
			if c > w.pos && c - w.pos < most {
				most = c - w.pos;
			}
		}
		let n = match w.chunk {
			Chunk::All => most,
			Chunk::Max(k) => if k < most { k } else { most },
			Chunk::Any => 1 + choose(most as u32) as usize,
			Chunk::AnyOrZero => {
				if w.zero_reads > 0 {
					let k = choose(most as u32 + 1) as usize;
					if k == 0 {
						w.zero_reads -= 1;
					}
					k
				} else {
					1 + choose(most as u32) as usize
				}
			},
		};
		buf[..n].copy_from_slice(&w.rx[w.pos..][..n]);
		w.pos += n;
		Ok(n)
	}
	fn write_all(&mut self, buf: &[u8]) -> Result<(), E> {
		let w = self.0.m();
		check(!w.no_tx, 994, "nothing is transmitted for arguments that are refused with a panic");
		w.call(b'W')?;
		check(w.tx_len + buf.len() <= N, 992, "more was transmitted than the harness can record");
		w.tx[w.tx_len..][..buf.len()].copy_from_slice(buf);
		w.tx_len += buf.len();
		if (w.writes as usize) < 8 {
			w.tx_end[w.writes as usize] = w.tx_len;
		}
		w.writes += 1;
		Ok(())
	}
	fn make_deadline(&self, t: Duration) -> Dl {
		let w = self.0.m();
		w.call(b'M').ok();
		if (w.deadlines as usize) < 16 {
			w.dls[w.deadlines as usize] = t;
		}
		w.deadlines += 1;
		w.last = t;
		Dl { seq: w.deadlines, timeout: t }
	}
	fn is_timeout_error(e: &E) -> bool {
		*e == E::Timeout
	}
}
