//! A stand-in for the crate `env_logger`, which keeps its rules about what is shown. What is shown goes to the harness.
#![no_std]
extern crate alloc;
use alloc::boxed::Box;
use alloc::string::String;
use alloc::vec::Vec;
use fakestd::io;
use log::{Level, LevelFilter, Record};

fn no_text(_: &[u8]) {}
fn no_end(_: Level) {}
/// What takes the text of a message, and what is called at the end of it; set by the harness.
pub static mut TEXT: fn(&[u8]) = no_text;
pub static mut END: fn(Level) = no_end;

/// What every message but information says here: formatting what they really say is not the subject.
pub const MESSAGE: &str = "message";

type Format = Box<dyn Fn(&mut fmt::Formatter, &Record<'_>) -> io::Result<()> + Sync + Send>;

#[derive(Default)]
pub struct Builder {
	/// What is shown of which modules.
	directives: Vec<(Option<String>, LevelFilter)>,
	format: Option<Format>,
}
#[derive(Default)]
pub struct Env;
impl Env {
	pub fn new() -> Env {
		Env
	}
	pub fn default_filter_or<T>(self, _: T) -> Env {
		self
	}
	pub fn filter<T>(self, _: T) -> Env {
		self
	}
}
impl<'a> From<&'a str> for Env {
	fn from(_: &'a str) -> Env {
		Env
	}
}
#[derive(Debug, Clone, Copy)]
pub enum Target {
	Stdout,
	Stderr,
}
#[derive(Debug, Clone, Copy)]
pub enum WriteStyle {
	Auto,
	Always,
	Never,
}
#[derive(Debug, Clone, Copy)]
pub enum TimestampPrecision {
	Seconds,
	Millis,
	Micros,
	Nanos,
}
impl Builder {
	pub fn new() -> Builder {
		Builder::default()
	}
	pub fn from_default_env() -> Builder {
		Builder::default()
	}
	pub fn from_env<E: Into<Env>>(_: E) -> Builder {
		Builder::default()
	}
	pub fn format<F: Fn(&mut fmt::Formatter, &Record<'_>) -> io::Result<()> + Sync + Send + 'static>(&mut self, f: F) -> &mut Builder {
		self.format = Some(Box::new(f));
		self
	}
	pub fn format_timestamp(&mut self, _: Option<TimestampPrecision>) -> &mut Builder {
		self
	}
	pub fn format_level(&mut self, _: bool) -> &mut Builder {
		self
	}
	pub fn format_target(&mut self, _: bool) -> &mut Builder {
		self
	}
	pub fn format_module_path(&mut self, _: bool) -> &mut Builder {
		self
	}
	pub fn target(&mut self, _: Target) -> &mut Builder {
		self
	}
	pub fn write_style(&mut self, _: WriteStyle) -> &mut Builder {
		self
	}
	pub fn is_test(&mut self, _: bool) -> &mut Builder {
		self
	}
	pub fn filter_level(&mut self, level: LevelFilter) -> &mut Builder {
		self.filter(None, level)
	}
	pub fn filter_module(&mut self, module: &str, level: LevelFilter) -> &mut Builder {
		self.filter(Some(module), level)
	}
	pub fn filter(&mut self, module: Option<&str>, level: LevelFilter) -> &mut Builder {
		let module = module.map(own);
		for d in &mut self.directives {
			if d.0 == module {
				d.1 = level;
				return self;
			}
		}
		self.directives.push((module, level));
		self
	}
	pub fn build(&mut self) -> Logger {
		if self.directives.is_empty() {
			self.directives.push((None, LevelFilter::Error));
		}
		Logger { directives: core::mem::take(&mut self.directives), format: self.format.take() }
	}
	pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> {
		let logger = self.build();
		let max = logger.filter();
		log::set_boxed_logger(Box::new(logger))?;
		log::set_max_level(max);
		Ok(())
	}
	pub fn init(&mut self) {
		self.try_init().expect("the logger is set already")
	}
}
pub fn builder() -> Builder {
	Builder::default()
}
pub fn init() {
	Builder::default().init()
}
pub fn try_init() -> Result<(), log::SetLoggerError> {
	Builder::default().try_init()
}

/// The module as it is called in the real program: the library `app` is the program `dynamixel2` there.
fn own(module: &str) -> String {
	let mut s = String::new();
	match module.strip_prefix("app") {
		Some(rest) if rest.is_empty() || rest.starts_with("::") => {
			s.push_str("dynamixel2");
			s.push_str(rest);
		},
		_ => s.push_str(module),
	}
	s
}

pub struct Logger {
	directives: Vec<(Option<String>, LevelFilter)>,
	format: Option<Format>,
}
impl Logger {
	pub fn filter(&self) -> LevelFilter {
		self.directives.iter().map(|d| d.1).max().unwrap_or(LevelFilter::Off)
	}
	pub fn matches(&self, record: &Record<'_>) -> bool {
		self.shown(record.level(), record.target())
	}
	/// The directive with the longest name that the target starts with decides.
	fn shown(&self, level: Level, target: &str) -> bool {
		let target = own(target);
		let mut best: Option<(usize, LevelFilter)> = None;
		for (module, l) in &self.directives {
			let n = match module {
				None => 0,
				Some(m) if target.starts_with(m.as_str()) => m.len(),
				_ => continue,
			};
			if best.map_or(true, |b| b.0 <= n) {
				best = Some((n, *l));
			}
		}
		best.is_some_and(|b| level <= b.1)
	}
}
impl log::Log for Logger {
	fn enabled(&self, m: &log::Metadata<'_>) -> bool {
		self.shown(m.level(), m.target())
	}
	fn log(&self, record: &Record<'_>) {
		use io::Write;
		if !self.shown(record.level(), record.target()) {
			return;
		}
		let mut f = fmt::Formatter;
		let other = format_args!("{}", MESSAGE);
		let record = Record::new(record.level(), record.target(), if record.level() == Level::Info { *record.args() } else { other });
		let _ = match &self.format {
			Some(format) => format(&mut f, &record),
			None => writeln!(f, "[{} {}] {}", record.level(), record.target(), record.args()),
		};
		(unsafe { END })(record.level());
	}
	fn flush(&self) {}
}

pub mod fmt {
	use fakestd::io;
	pub use self::style::Style;
	#[derive(Debug)]
	pub struct Formatter;
	impl io::Write for Formatter {
		fn write(&mut self, b: &[u8]) -> io::Result<usize> {
			(unsafe { crate::TEXT })(b);
			Ok(b.len())
		}
		fn flush(&mut self) -> io::Result<()> {
			Ok(())
		}
	}
	impl Formatter {
		pub fn default_level_style(&self, _: log::Level) -> Style {
			Style
		}
	}
	pub mod style {
		#[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
		pub struct Style;
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub struct Color;
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub struct Reset;
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub enum AnsiColor {
			Black,
			Red,
			Green,
			Yellow,
			Blue,
			Magenta,
			Cyan,
			White,
			BrightBlack,
			BrightRed,
			BrightGreen,
			BrightYellow,
			BrightBlue,
			BrightMagenta,
			BrightCyan,
			BrightWhite,
		}
		impl AnsiColor {
			pub const fn on_default(self) -> Style {
				Style
			}
		}
		impl From<AnsiColor> for Color {
			fn from(_: AnsiColor) -> Color {
				Color
			}
		}
		impl Style {
			pub const fn new() -> Style {
				Style
			}
			pub const fn fg_color(self, _: Option<Color>) -> Style {
				self
			}
			pub const fn bg_color(self, _: Option<Color>) -> Style {
				self
			}
			pub const fn bold(self) -> Style {
				self
			}
			pub const fn dimmed(self) -> Style {
				self
			}
			pub const fn italic(self) -> Style {
				self
			}
			pub const fn underline(self) -> Style {
				self
			}
			pub const fn render(self) -> Style {
				self
			}
			pub const fn render_reset(self) -> Reset {
				Reset
			}
		}
		impl core::fmt::Display for Style {
			fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
				Ok(())
			}
		}
		impl core::fmt::Display for Reset {
			fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
				Ok(())
			}
		}
	}
}
