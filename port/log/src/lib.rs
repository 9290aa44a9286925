//! A stand-in for the crate `log`: what is logged goes to the logger that was set, if any.
#![no_std]
extern crate alloc;
use core::fmt::Arguments;

static mut LOGGER: Option<&'static dyn Log> = None;
static mut MAX_LEVEL: LevelFilter = LevelFilter::Off;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Level {
	Error = 1,
	Warn,
	Info,
	Debug,
	Trace,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum LevelFilter {
	Off,
	Error,
	Warn,
	Info,
	Debug,
	Trace,
}
impl Level {
	pub fn to_level_filter(&self) -> LevelFilter {
		match self {
			Level::Error => LevelFilter::Error,
			Level::Warn => LevelFilter::Warn,
			Level::Info => LevelFilter::Info,
			Level::Debug => LevelFilter::Debug,
			Level::Trace => LevelFilter::Trace,
		}
	}
	pub fn as_str(&self) -> &'static str {
		match self {
			Level::Error => "ERROR",
			Level::Warn => "WARN",
			Level::Info => "INFO",
			Level::Debug => "DEBUG",
			Level::Trace => "TRACE",
		}
	}
}
impl core::fmt::Display for Level {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		f.pad(self.as_str())
	}
}
impl LevelFilter {
	pub fn max() -> LevelFilter {
		LevelFilter::Trace
	}
	pub fn to_level(&self) -> Option<Level> {
		match self {
			LevelFilter::Off => None,
			LevelFilter::Error => Some(Level::Error),
			LevelFilter::Warn => Some(Level::Warn),
			LevelFilter::Info => Some(Level::Info),
			LevelFilter::Debug => Some(Level::Debug),
			LevelFilter::Trace => Some(Level::Trace),
		}
	}
}
impl PartialEq<LevelFilter> for Level {
	fn eq(&self, other: &LevelFilter) -> bool {
		*self as usize == *other as usize
	}
}
impl PartialOrd<LevelFilter> for Level {
	fn partial_cmp(&self, other: &LevelFilter) -> Option<core::cmp::Ordering> {
		Some((*self as usize).cmp(&(*other as usize)))
	}
}

#[derive(Debug, Clone)]
pub struct Record<'a> {
	level: Level,
	target: &'a str,
	args: Arguments<'a>,
}
#[derive(Debug, Clone)]
pub struct Metadata<'a> {
	level: Level,
	target: &'a str,
}
impl<'a> Metadata<'a> {
	pub fn level(&self) -> Level {
		self.level
	}
	pub fn target(&self) -> &'a str {
		self.target
	}
}
impl<'a> Record<'a> {
	#[doc(hidden)]
	pub fn new(level: Level, target: &'a str, args: Arguments<'a>) -> Record<'a> {
		Record { level, target, args }
	}
	pub fn level(&self) -> Level {
		self.level
	}
	pub fn args(&self) -> &Arguments<'a> {
		&self.args
	}
	pub fn target(&self) -> &'a str {
		self.target
	}
	pub fn module_path(&self) -> Option<&'a str> {
		Some(self.target)
	}
	pub fn metadata(&self) -> Metadata<'a> {
		Metadata { level: self.level, target: self.target }
	}
}

pub trait Log: Sync + Send {
	fn enabled(&self, metadata: &Metadata<'_>) -> bool;
	fn log(&self, record: &Record<'_>);
	fn flush(&self);
}
#[derive(Debug)]
pub struct SetLoggerError(());
impl core::fmt::Display for SetLoggerError {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		f.write_str("the logger is set already")
	}
}
impl core::error::Error for SetLoggerError {}
#[allow(static_mut_refs)]
pub fn set_logger(logger: &'static dyn Log) -> Result<(), SetLoggerError> {
	unsafe {
		if LOGGER.is_some() {
			return Err(SetLoggerError(()));
		}
		LOGGER = Some(logger);
	}
	Ok(())
}
pub fn set_boxed_logger(logger: alloc::boxed::Box<dyn Log>) -> Result<(), SetLoggerError> {
	set_logger(alloc::boxed::Box::leak(logger))
}
pub fn set_max_level(level: LevelFilter) {
	unsafe { MAX_LEVEL = level }
}
pub fn max_level() -> LevelFilter {
	unsafe { MAX_LEVEL }
}
/// For the harness: as when the program starts.
#[doc(hidden)]
pub fn reset() {
	unsafe {
		LOGGER = None;
		MAX_LEVEL = LevelFilter::Off;
	}
}
#[doc(hidden)]
pub fn record(level: Level, target: &str, args: Arguments<'_>) {
	if level <= max_level() {
		if let Some(logger) = unsafe { LOGGER } {
			logger.log(&Record { level, target, args });
		}
	}
}
#[doc(hidden)]
pub fn enabled(level: Level, target: &str) -> bool {
	level <= max_level() && unsafe { LOGGER }.is_some_and(|x| x.enabled(&Metadata { level, target }))
}
#[macro_export]
macro_rules! log_enabled {
	(target: $t:expr, $l:expr) => { $crate::enabled($l, $t) };
	($l:expr) => { $crate::enabled($l, ::core::module_path!()) };
}
#[macro_export]
macro_rules! log {
	(target: $t:expr, $l:expr, $($a:tt)+) => { $crate::record($l, $t, ::core::format_args!($($a)+)) };
	($l:expr, $($a:tt)+) => { $crate::record($l, ::core::module_path!(), ::core::format_args!($($a)+)) };
}
macro_rules! levels {
	($d:tt $($name:ident $level:ident)*) => {
		$(
			#[macro_export]
			macro_rules! $name {
				(target: $d t:expr, $d($d a:tt)+) => { $crate::record($crate::Level::$level, $d t, ::core::format_args!($d($d a)+)) };
				($d($d a:tt)+) => { $crate::record($crate::Level::$level, ::core::module_path!(), ::core::format_args!($d($d a)+)) };
			}
		)*
	};
}
levels!($ error Error warn Warn info Info debug Debug trace Trace);
