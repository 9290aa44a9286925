//! A stand-in for the `serial2` crate: the same interface, with a port that belongs to the harness.
#![no_std]
pub use fakestd as std;
use std::io::Result;
use std::path::Path;
use std::time::Duration;

pub const DEFAULT_READ_TIMEOUT: Duration = Duration::from_secs(3);

/// What the harness provides.
pub trait Driver {
	fn open(&mut self, path: &str, settings: &Settings) -> Result<()>;
	fn get_configuration(&mut self) -> Result<Settings>;
	fn set_configuration(&mut self, s: &Settings) -> Result<()>;
	/// Wait for at most `timeout`.
	fn read(&mut self, buf: &mut [u8], timeout: Duration) -> Result<usize>;
	fn write(&mut self, buf: &[u8]) -> Result<()>;
	/// 0: both buffers, 1: input, 2: output
	fn discard(&mut self, what: u8) -> Result<()>;
	fn set_read_timeout(&mut self, t: Duration) -> Result<()>;
}
pub static mut DRIVER: Option<&'static mut dyn Driver> = None;
#[allow(static_mut_refs)]
fn driver() -> &'static mut dyn Driver {
	match unsafe { &mut DRIVER } {
		Some(d) => &mut **d,
		None => panic!(),
	}
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CharSize {
	Bits5,
	Bits6,
	Bits7,
	Bits8,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum StopBits {
	One,
	Two,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Parity {
	None,
	Odd,
	Even,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FlowControl {
	None,
	XonXoff,
	RtsCts,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Settings {
	pub baud: u32,
	pub raw: bool,
	pub char_size: CharSize,
	pub stop_bits: StopBits,
	pub parity: Parity,
	pub flow_control: FlowControl,
	/// Everything else.
	pub other: u8,
	/// Is the baud rate one that can be set (else: the error of setting it)?
	pub refuse: Option<u8>,
	/// Can the baud rate be read (else: the error of reading it)?
	pub unknown: Option<u8>,
}
fn code(c: u8) -> std::io::Error {
	std::io::Error::made(std::io::ErrorKind::Other, c as i32)
}
impl Settings {
	pub fn set_raw(&mut self) {
		self.raw = true;
		self.char_size = CharSize::Bits8;
		self.stop_bits = StopBits::One;
		self.parity = Parity::None;
		self.flow_control = FlowControl::None;
	}
	pub fn set_baud_rate(&mut self, b: u32) -> Result<()> {
		if let Some(c) = self.refuse {
			return Err(code(c));
		}
		self.baud = b;
		Ok(())
	}
	pub fn get_baud_rate(&self) -> Result<u32> {
		if let Some(c) = self.unknown {
			return Err(code(c));
		}
		Ok(self.baud)
	}
	pub fn set_char_size(&mut self, x: CharSize) {
		self.char_size = x;
	}
	pub fn get_char_size(&self) -> Result<CharSize> {
		Ok(self.char_size)
	}
	pub fn set_stop_bits(&mut self, x: StopBits) {
		self.stop_bits = x;
	}
	pub fn get_stop_bits(&self) -> Result<StopBits> {
		Ok(self.stop_bits)
	}
	pub fn set_parity(&mut self, x: Parity) {
		self.parity = x;
	}
	pub fn get_parity(&self) -> Result<Parity> {
		Ok(self.parity)
	}
	pub fn set_flow_control(&mut self, x: FlowControl) {
		self.flow_control = x;
	}
	pub fn get_flow_control(&self) -> Result<FlowControl> {
		Ok(self.flow_control)
	}
}
pub trait IntoSettings {
	fn apply_to_settings(self, settings: &mut Settings) -> Result<()>;
}
impl IntoSettings for u32 {
	fn apply_to_settings(self, s: &mut Settings) -> Result<()> {
		s.set_raw();
		s.set_baud_rate(self)
	}
}
impl<F: FnOnce(Settings) -> Result<Settings>> IntoSettings for F {
	fn apply_to_settings(self, s: &mut Settings) -> Result<()> {
		*s = self(s.clone())?;
		Ok(())
	}
}
pub struct KeepSettings;
impl IntoSettings for KeepSettings {
	fn apply_to_settings(self, _: &mut Settings) -> Result<()> {
		Ok(())
	}
}

#[derive(Debug)]
pub struct SerialPort {
	read_timeout: Duration,
}
impl SerialPort {
	pub fn open(name: impl AsRef<Path>, settings: impl IntoSettings) -> Result<Self> {
		let mut s = driver().get_configuration()?;
		settings.apply_to_settings(&mut s)?;
		driver().open(name.as_ref().as_str(), &s)?;
		Ok(SerialPort { read_timeout: DEFAULT_READ_TIMEOUT })
	}
	/// For the harness: a port that is already open.
	pub fn opened() -> Self {
		SerialPort { read_timeout: DEFAULT_READ_TIMEOUT }
	}
	pub fn set_configuration(&mut self, s: &Settings) -> Result<()> {
		driver().set_configuration(s)
	}
	pub fn get_configuration(&self) -> Result<Settings> {
		driver().get_configuration()
	}
	pub fn read(&self, buf: &mut [u8]) -> Result<usize> {
		driver().read(buf, self.read_timeout)
	}
	pub fn read_exact(&self, mut buf: &mut [u8]) -> Result<()> {
		while !buf.is_empty() {
			match self.read(buf) {
				Ok(0) => return Err(std::io::ErrorKind::UnexpectedEof.into()),
				Ok(n) => buf = &mut buf[n..],
				Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
				Err(e) => return Err(e),
			}
		}
		Ok(())
	}
	pub fn write(&self, buf: &[u8]) -> Result<usize> {
		// a partial write
		let n = if buf.len() > 1 { buf.len() / 2 } else { buf.len() };
		driver().write(&buf[..n])?;
		Ok(n)
	}
	pub fn write_all(&self, buf: &[u8]) -> Result<()> {
		driver().write(buf)
	}
	pub fn flush(&self) -> Result<()> {
		Ok(())
	}
	pub fn set_read_timeout(&mut self, t: Duration) -> Result<()> {
		driver().set_read_timeout(t)?;
		self.read_timeout = t;
		Ok(())
	}
	pub fn get_read_timeout(&self) -> Result<Duration> {
		Ok(self.read_timeout)
	}
	pub fn set_write_timeout(&mut self, _: Duration) -> Result<()> {
		Ok(())
	}
	pub fn discard_buffers(&self) -> Result<()> {
		driver().discard(0)
	}
	pub fn discard_input_buffer(&self) -> Result<()> {
		driver().discard(1)
	}
	pub fn discard_output_buffer(&self) -> Result<()> {
		driver().discard(2)
	}
}
