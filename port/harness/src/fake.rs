//! The serial port behind the stand-in for `serial2`, and the clock.

use crate::rt::eq;
use core::time::Duration;
use fakestd::io::{Error, ErrorKind, Result};
use fakestd::time::CLOCK;
use serial2::{CharSize, Driver, FlowControl, Parity, Settings, StopBits, DRIVER};

pub const KINDS: [ErrorKind; 20] = [
	ErrorKind::NotFound,
	ErrorKind::PermissionDenied,
	ErrorKind::ConnectionRefused,
	ErrorKind::ConnectionReset,
	ErrorKind::ConnectionAborted,
	ErrorKind::NotConnected,
	ErrorKind::AddrInUse,
	ErrorKind::AddrNotAvailable,
	ErrorKind::BrokenPipe,
	ErrorKind::AlreadyExists,
	ErrorKind::WouldBlock,
	ErrorKind::InvalidInput,
	ErrorKind::InvalidData,
	ErrorKind::TimedOut,
	ErrorKind::WriteZero,
	ErrorKind::Interrupted,
	ErrorKind::Unsupported,
	ErrorKind::UnexpectedEof,
	ErrorKind::OutOfMemory,
	ErrorKind::Other,
];

static mut NOW: Duration = Duration::ZERO;
pub fn now() -> Duration {
	unsafe { NOW }
}
pub fn set_now(t: Duration) {
	unsafe { NOW = t }
}

pub struct P {
	pub settings: Settings,
	/// What arrives: up to `at[i]` has arrived `end[i]`.
	pub rx: [u8; 160],
	pub end: [usize; 8],
	pub at: [Duration; 8],
	pub pieces: usize,
	pub pos: usize,
	/// What was sent.
	pub tx: [u8; 160],
	pub tx_len: usize,
	/// How long a transmission takes.
	pub write_takes: Duration,
	/// Fail this call (kind of call, kind of error, code).
	pub fail: u8,
	pub fail_kind: ErrorKind,
	pub fail_code: i32,
	/// Calls.
	pub reads: u32,
	pub sets: u32,
	pub timeouts_set: u32,
	pub discards: [u32; 3],
	pub opens: u32,
	pub path_ok: bool,
	pub last_timeout: Duration,
	/// The size of the last buffer for reading.
	pub room: usize,
}
impl P {
	pub fn new() -> P {
		set_now(Duration::ZERO);
		unsafe { CLOCK = now };
		P {
			settings: Settings {
				baud: 57_600,
				raw: false,
				char_size: CharSize::Bits7,
				stop_bits: StopBits::Two,
				parity: Parity::Odd,
				flow_control: FlowControl::XonXoff,
				other: 77,
				refuse: None,
				unknown: None,
			},
			rx: [0; 160],
			end: [0; 8],
			at: [Duration::ZERO; 8],
			pieces: 0,
			pos: 0,
			tx: [0; 160],
			tx_len: 0,
			write_takes: Duration::ZERO,
			fail: 0,
			fail_kind: ErrorKind::Other,
			fail_code: 0,
			reads: 0,
			sets: 0,
			timeouts_set: 0,
			discards: [0; 3],
			opens: 0,
			path_ok: true,
			last_timeout: Duration::ZERO,
			room: 0,
		}
	}
	/// Make it the serial port of the process.
	#[allow(clippy::mut_from_ref)]
	pub fn install(&mut self) -> &'static mut P {
		let p = self as *mut P;
		unsafe {
			DRIVER = Some(&mut *p);
			&mut *p
		}
	}
	fn fails(&self, call: u8) -> Result<()> {
		if self.fail == call {
			return Err(Error::made(self.fail_kind, self.fail_code));
		}
		Ok(())
	}
	/// Is this the error of the failing call?
	pub fn is_mine(&self, e: &Error) -> bool {
		e.kind() == self.fail_kind && e.raw_os_error() == Some(self.fail_code)
	}
	pub fn arrive(&mut self, bytes: &[u8], at: Duration) {
		let s = if self.pieces == 0 { 0 } else { self.end[self.pieces - 1] };
		for i in 0..bytes.len() {
			self.rx[s + i] = bytes[i];
		}
		self.end[self.pieces] = s + bytes.len();
		self.at[self.pieces] = at;
		self.pieces += 1;
	}
}
impl Driver for P {
	fn open(&mut self, path: &str, settings: &Settings) -> Result<()> {
		self.opens += 1;
		self.path_ok &= eq(path.as_bytes(), b"/dev/ttyX7");
		self.fails(1)?;
		self.settings = settings.clone();
		Ok(())
	}
	fn get_configuration(&mut self) -> Result<Settings> {
		self.fails(2)?;
		Ok(self.settings.clone())
	}
	fn set_configuration(&mut self, s: &Settings) -> Result<()> {
		self.sets += 1;
		self.fails(3)?;
		self.settings = s.clone();
		Ok(())
	}
	fn read(&mut self, buf: &mut [u8], timeout: Duration) -> Result<usize> {
		self.reads += 1;
		self.last_timeout = timeout;
		self.room = buf.len();
		self.fails(4)?;
		let end = now() + timeout;
		for i in 0..self.pieces {
			if self.end[i] <= self.pos {
				continue;
			}
			if self.at[i] > end {
				break;
			}
			if self.at[i] > now() {
				set_now(self.at[i]);
			}
			let n = (self.end[i] - self.pos).min(buf.len());
			buf[..n].copy_from_slice(&self.rx[self.pos..self.pos + n]);
			self.pos += n;
			return Ok(n);
		}
		set_now(end);
		Err(ErrorKind::TimedOut.into())
	}
	fn write(&mut self, buf: &[u8]) -> Result<()> {
		self.fails(5)?;
		for i in 0..buf.len() {
			self.tx[self.tx_len + i] = buf[i];
		}
		self.tx_len += buf.len();
		set_now(now() + self.write_takes);
		Ok(())
	}
	fn discard(&mut self, what: u8) -> Result<()> {
		self.discards[what as usize] += 1;
		self.fails(6)?;
		if what != 2 {
			for i in 0..self.pieces {
				if self.at[i] <= now() && self.end[i] > self.pos {
					self.pos = self.end[i];
				}
			}
		}
		Ok(())
	}
	fn set_read_timeout(&mut self, _: Duration) -> Result<()> {
		self.timeouts_set += 1;
		self.fails(7)
	}
}
