//! A stand-in for `std` with a clock and I/O errors that belong to the harness, so that the code behind the features
//! `std` and `serial2` can be executed symbolically. Everything else is `core` and `alloc`.
#![no_std]
#![allow(ambiguous_glob_reexports)]
#[doc(hidden)]
pub extern crate alloc as alloc_;

pub use alloc_::{borrow, boxed, collections, fmt, rc, slice, str, string, sync, task};
pub mod vec {
	pub use alloc_::vec::*;
}
pub use core::*;
pub use core::{
	assert, assert_eq, assert_ne, cfg, column, compile_error, concat, debug_assert, debug_assert_eq, debug_assert_ne, env, file, format_args, include,
	include_bytes, include_str, line, matches, module_path, option_env, panic, stringify, todo, unimplemented, unreachable, write, writeln,
};

#[macro_export]
macro_rules! vec {
	($($a:tt)*) => { $crate::alloc_::vec![$($a)*] };
}
#[macro_export]
macro_rules! format {
	($($a:tt)*) => { $crate::alloc_::format!($($a)*) };
}
#[macro_export]
macro_rules! print {
	($($a:tt)*) => { $crate::io::print($crate::format_args!($($a)*)) };
}
#[macro_export]
macro_rules! println {
	($($a:tt)*) => { $crate::io::print($crate::format_args!($($a)*)) };
}
#[macro_export]
macro_rules! eprint {
	($($a:tt)*) => {{ let _ = $crate::format_args!($($a)*); }};
}
#[macro_export]
macro_rules! eprintln {
	($($a:tt)*) => {{ let _ = $crate::format_args!($($a)*); }};
}

pub mod prelude {
	pub mod v1 {
		pub use alloc_::borrow::ToOwned;
		pub use alloc_::boxed::Box;
		pub use alloc_::string::{String, ToString};
		pub use alloc_::vec::Vec;
		pub use crate::{
			assert, assert_eq, assert_ne, debug_assert, debug_assert_eq, debug_assert_ne, eprint, eprintln, format, matches, panic, print, println, todo, unimplemented, unreachable,
			vec, write, writeln,
		};
		pub use core::prelude::v1::*;
	}
	pub mod rust_2021 {
		pub use super::v1::*;
		pub use core::prelude::rust_2021::*;
	}
}

pub mod time {
	pub use core::time::*;
	use core::ops::*;

	fn no_clock() -> Duration {
		Duration::ZERO
	}
	/// The clock, set by the harness.
	pub static mut CLOCK: fn() -> Duration = no_clock;

	/// Time since the (fictitious) start of the clock.
	#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct Instant(pub Duration);
	impl Instant {
		pub fn now() -> Instant {
			Instant(unsafe { CLOCK }())
		}
		pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
			self.0.checked_sub(earlier.0)
		}
		pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
			self.0.saturating_sub(earlier.0)
		}
		pub fn duration_since(&self, earlier: Instant) -> Duration {
			self.0.saturating_sub(earlier.0)
		}
		pub fn elapsed(&self) -> Duration {
			Instant::now().duration_since(*self)
		}
		pub fn checked_add(&self, d: Duration) -> Option<Instant> {
			self.0.checked_add(d).map(Instant)
		}
		pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
			self.0.checked_sub(d).map(Instant)
		}
	}
	impl Add<Duration> for Instant {
		type Output = Instant;
		fn add(self, d: Duration) -> Instant {
			Instant(self.0 + d)
		}
	}
	impl AddAssign<Duration> for Instant {
		fn add_assign(&mut self, d: Duration) {
			self.0 += d
		}
	}
	impl Sub<Duration> for Instant {
		type Output = Instant;
		fn sub(self, d: Duration) -> Instant {
			Instant(self.0 - d)
		}
	}
	impl SubAssign<Duration> for Instant {
		fn sub_assign(&mut self, d: Duration) {
			self.0 -= d
		}
	}
	impl Sub<Instant> for Instant {
		type Output = Duration;
		fn sub(self, o: Instant) -> Duration {
			self.duration_since(o)
		}
	}
}

pub mod io {
	use alloc_::boxed::Box;

	#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
	#[non_exhaustive]
	pub enum ErrorKind {
		NotFound,
		PermissionDenied,
		ConnectionRefused,
		ConnectionReset,
		ConnectionAborted,
		NotConnected,
		AddrInUse,
		AddrNotAvailable,
		BrokenPipe,
		AlreadyExists,
		WouldBlock,
		InvalidInput,
		InvalidData,
		TimedOut,
		WriteZero,
		Interrupted,
		Unsupported,
		UnexpectedEof,
		OutOfMemory,
		Other,
	}
	impl core::fmt::Display for ErrorKind {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			core::fmt::Debug::fmt(self, f)
		}
	}
	#[derive(Debug)]
	pub struct Error {
		kind: ErrorKind,
		code: Option<i32>,
	}
	impl Error {
		pub fn new(kind: ErrorKind, _: impl Into<Box<dyn core::error::Error + Send + Sync>>) -> Error {
			Error { kind, code: None }
		}
		pub fn other(_: impl Into<Box<dyn core::error::Error + Send + Sync>>) -> Error {
			Error { kind: ErrorKind::Other, code: None }
		}
		/// An error of the operating system, as the harness makes it.
		pub fn made(kind: ErrorKind, code: i32) -> Error {
			Error { kind, code: Some(code) }
		}
		pub fn kind(&self) -> ErrorKind {
			self.kind
		}
		pub fn raw_os_error(&self) -> Option<i32> {
			self.code
		}
	}
	impl From<ErrorKind> for Error {
		fn from(kind: ErrorKind) -> Error {
			Error { kind, code: None }
		}
	}
	impl core::fmt::Display for Error {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			core::fmt::Debug::fmt(self, f)
		}
	}
	impl core::error::Error for Error {}
	pub type Result<T> = core::result::Result<T, Error>;

	fn nowhere(_: core::fmt::Arguments<'_>) {}
	/// What takes the output, set by the harness.
	pub static mut PRINT: fn(core::fmt::Arguments<'_>) = nowhere;
	pub fn print(a: core::fmt::Arguments<'_>) {
		(unsafe { PRINT })(a)
	}
	#[derive(Debug)]
	pub struct Stdout;
	pub type StdoutLock<'a> = Stdout;
	pub fn stdout() -> Stdout {
		Stdout
	}
	impl Stdout {
		pub fn lock(&self) -> Stdout {
			Stdout
		}
	}
	fn printed(b: &[u8]) -> Result<usize> {
		print(core::format_args!("{}", unsafe { core::str::from_utf8_unchecked(b) }));
		Ok(b.len())
	}
	/// What takes bytes written to the standard output, set by the harness.
	pub static mut STDOUT: fn(&[u8]) -> Result<usize> = printed;
	impl Write for Stdout {
		fn write(&mut self, b: &[u8]) -> Result<usize> {
			(unsafe { STDOUT })(b)
		}
		fn flush(&mut self) -> Result<()> {
			Ok(())
		}
	}
	impl<W: Write + ?Sized> Write for &mut W {
		fn write(&mut self, b: &[u8]) -> Result<usize> {
			(**self).write(b)
		}
		fn flush(&mut self) -> Result<()> {
			(**self).flush()
		}
	}
	/// With a small buffer; what is left when it is dropped is written, and errors then are lost.
	pub struct BufWriter<W: Write> {
		inner: W,
		kept: alloc_::vec::Vec<u8>,
	}
	impl<W: Write> BufWriter<W> {
		pub fn new(inner: W) -> Self {
			BufWriter { inner, kept: alloc_::vec::Vec::with_capacity(64) }
		}
		pub fn with_capacity(_: usize, inner: W) -> Self {
			Self::new(inner)
		}
		pub fn get_ref(&self) -> &W {
			&self.inner
		}
		pub fn get_mut(&mut self) -> &mut W {
			&mut self.inner
		}
		fn empty(&mut self) -> Result<()> {
			let r = self.inner.write_all(&self.kept);
			self.kept.clear();
			r
		}
	}
	impl<W: Write> Write for BufWriter<W> {
		fn write(&mut self, b: &[u8]) -> Result<usize> {
			if self.kept.len() + b.len() > 64 {
				self.empty()?;
			}
			self.kept.extend_from_slice(b);
			Ok(b.len())
		}
		fn flush(&mut self) -> Result<()> {
			self.empty()?;
			self.inner.flush()
		}
	}
	impl<W: Write> Drop for BufWriter<W> {
		fn drop(&mut self) {
			let _ = self.empty();
		}
	}
	impl Write for alloc_::vec::Vec<u8> {
		fn write(&mut self, b: &[u8]) -> Result<usize> {
			self.extend_from_slice(b);
			Ok(b.len())
		}
		fn flush(&mut self) -> Result<()> {
			Ok(())
		}
	}

	pub trait Read {
		fn read(&mut self, buf: &mut [u8]) -> Result<usize>;
	}
	pub trait Write {
		fn write(&mut self, buf: &[u8]) -> Result<usize>;
		fn flush(&mut self) -> Result<()>;
		fn write_all(&mut self, mut buf: &[u8]) -> Result<()> {
			while !buf.is_empty() {
				match self.write(buf) {
					Ok(0) => return Err(ErrorKind::WriteZero.into()),
					Ok(n) => buf = &buf[n..],
					Err(e) if e.kind() == ErrorKind::Interrupted => (),
					Err(e) => return Err(e),
				}
			}
			Ok(())
		}
		fn write_fmt(&mut self, a: core::fmt::Arguments<'_>) -> Result<()> {
			struct A<'a, W: ?Sized>(&'a mut W, Result<()>);
			impl<W: Write + ?Sized> core::fmt::Write for A<'_, W> {
				fn write_str(&mut self, s: &str) -> core::fmt::Result {
					self.1 = self.0.write_all(s.as_bytes());
					if self.1.is_ok() { Ok(()) } else { Err(core::fmt::Error) }
				}
			}
			let mut x = A(self, Ok(()));
			let _ = core::fmt::Write::write_fmt(&mut x, a);
			x.1
		}
	}
}

pub mod process {
	fn no_exit(_: i32) -> ! {
		panic!()
	}
	/// What ends the process, set by the harness.
	pub static mut EXIT: fn(i32) -> ! = no_exit;
	pub fn exit(status: i32) -> ! {
		(unsafe { EXIT })(status)
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct ExitCode(pub u8);
	impl ExitCode {
		pub const SUCCESS: ExitCode = ExitCode(0);
		pub const FAILURE: ExitCode = ExitCode(1);
	}
	impl From<u8> for ExitCode {
		fn from(x: u8) -> ExitCode {
			ExitCode(x)
		}
	}
}

pub mod fs {
	use super::{io, path::Path};
	fn no_file(_: &str) -> io::Result<()> {
		Err(io::ErrorKind::PermissionDenied.into())
	}
	fn no_bytes(_: &[u8]) -> io::Result<usize> {
		Err(io::ErrorKind::PermissionDenied.into())
	}
	/// What makes a file, and what takes its contents, set by the harness.
	pub static mut CREATE: fn(&str) -> io::Result<()> = no_file;
	pub static mut WRITE: fn(&[u8]) -> io::Result<usize> = no_bytes;
	#[derive(Debug)]
	pub struct File;
	impl File {
		pub fn create(path: impl AsRef<Path>) -> io::Result<File> {
			(unsafe { CREATE })(path.as_ref().as_str())?;
			Ok(File)
		}
		pub fn sync_all(&self) -> io::Result<()> {
			Ok(())
		}
	}
	pub fn write(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> io::Result<()> {
		use io::Write;
		File::create(path)?.write_all(contents.as_ref())
	}
	impl io::Write for File {
		fn write(&mut self, b: &[u8]) -> io::Result<usize> {
			(unsafe { WRITE })(b)
		}
		fn flush(&mut self) -> io::Result<()> {
			Ok(())
		}
	}
}

pub mod path {
	#[derive(Debug, PartialEq, Eq)]
	#[repr(transparent)]
	pub struct Path(str);
	impl Path {
		pub fn new<S: AsRef<str> + ?Sized>(s: &S) -> &Path {
			unsafe { &*(s.as_ref() as *const str as *const Path) }
		}
		pub fn as_str(&self) -> &str {
			&self.0
		}
	}
	impl AsRef<Path> for Path {
		fn as_ref(&self) -> &Path {
			self
		}
	}
	impl AsRef<Path> for str {
		fn as_ref(&self) -> &Path {
			Path::new(self)
		}
	}
	impl AsRef<Path> for alloc_::string::String {
		fn as_ref(&self) -> &Path {
			Path::new(self.as_str())
		}
	}
	impl Path {
		pub fn display(&self) -> &str {
			&self.0
		}
		pub fn to_path_buf(&self) -> PathBuf {
			PathBuf(alloc_::string::String::from(&self.0))
		}
		pub fn to_str(&self) -> Option<&str> {
			Some(&self.0)
		}
	}
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct PathBuf(alloc_::string::String);
	impl PathBuf {
		pub fn as_path(&self) -> &Path {
			self
		}
	}
	impl core::ops::Deref for PathBuf {
		type Target = Path;
		fn deref(&self) -> &Path {
			Path::new(self.0.as_str())
		}
	}
	impl AsRef<Path> for PathBuf {
		fn as_ref(&self) -> &Path {
			self
		}
	}
	impl From<&str> for PathBuf {
		fn from(s: &str) -> PathBuf {
			PathBuf(s.into())
		}
	}
	impl From<alloc_::string::String> for PathBuf {
		fn from(s: alloc_::string::String) -> PathBuf {
			PathBuf(s)
		}
	}
}
