//! A stand-in for the crate `clap`: the values of the options come from the harness.
#![no_std]
extern crate alloc;
use alloc::string::String;
use alloc::vec::Vec;
use core::marker::PhantomData;
use core::str::FromStr;
pub use derive::{Args, Parser, Subcommand, ValueEnum};

/// What the harness provides.
pub trait Source {
	/// The name of the subcommand.
	fn command(&mut self, what: &str) -> &'static str;
	/// The text given for an option or argument.
	fn text(&mut self, name: &str) -> &'static str;
	/// The number given for an option or argument.
	fn number(&mut self, name: &str) -> u64;
	/// How many values are given for it?
	fn count(&mut self, name: &str) -> usize;
}
pub static mut SOURCE: Option<&'static mut dyn Source> = None;

pub fn same(a: &str, b: &str) -> bool {
	a == b
}
/// Wrong usage: what is given does not make a valid command line.
pub fn usage() -> ! {
	fakestd::process::exit(2)
}

pub trait Take: Sized {
	fn take(source: &mut dyn Source, name: &str) -> Self;
}
macro_rules! numbers {
	($($t:ty)*) => { $(impl Take for $t { fn take(source: &mut dyn Source, name: &str) -> Self { source.number(name) as $t } })* };
}
numbers!(u8 u16 u32 u64 usize i8 i16 i32 i64);
impl Take for bool {
	fn take(source: &mut dyn Source, name: &str) -> Self {
		source.number(name) != 0
	}
}
impl Take for String {
	fn take(source: &mut dyn Source, name: &str) -> Self {
		String::from(source.text(name))
	}
}
impl Take for fakestd::path::PathBuf {
	fn take(source: &mut dyn Source, name: &str) -> Self {
		fakestd::path::PathBuf::from(source.text(name))
	}
}
impl<T: Take> Take for Vec<T> {
	fn take(source: &mut dyn Source, name: &str) -> Self {
		let n = source.count(name);
		let mut v = Vec::with_capacity(n);
		for _ in 0..n {
			v.push(T::take(source, name));
		}
		v
	}
}
impl<T: Take> Take for Option<T> {
	fn take(source: &mut dyn Source, name: &str) -> Self {
		if source.count(name) == 0 {
			return None;
		}
		Some(T::take(source, name))
	}
}
pub struct Wrap<T>(PhantomData<T>);
impl<T> Wrap<T> {
	pub fn new() -> Self {
		Wrap(PhantomData)
	}
}
pub trait ViaTake<T> {
	fn make(&self, source: &mut dyn Source, name: &str) -> T;
}
impl<T: Take> ViaTake<T> for &Wrap<T> {
	fn make(&self, source: &mut dyn Source, name: &str) -> T {
		T::take(source, name)
	}
}
pub trait ViaFromStr<T> {
	fn make(&self, source: &mut dyn Source, name: &str) -> T;
}
impl<T: FromStr> ViaFromStr<T> for Wrap<T> {
	fn make(&self, source: &mut dyn Source, name: &str) -> T {
		match T::from_str(source.text(name)) {
			Ok(x) => x,
			Err(_) => usage(),
		}
	}
}
pub fn with_parser<T, E>(f: impl FnOnce(&str) -> Result<T, E>, source: &mut dyn Source, name: &str) -> T {
	match f(source.text(name)) {
		Ok(x) => x,
		Err(_) => usage(),
	}
}

#[allow(static_mut_refs)]
pub trait Parser: Take {
	fn parse() -> Self {
		match unsafe { &mut SOURCE } {
			Some(s) => Self::take(&mut **s, ""),
			None => usage(),
		}
	}
}
#[derive(Default)]
pub struct Command;
pub trait CommandFactory {
	fn command() -> Command {
		Command
	}
}
#[derive(Debug, Clone, Copy)]
pub enum ArgAction {
	Set,
	Append,
	SetTrue,
	SetFalse,
	Count,
}
/// What `main` returns.
pub trait Outcome {
	fn status(self) -> i32;
}
impl Outcome for () {
	fn status(self) -> i32 {
		0
	}
}
impl<E> Outcome for Result<(), E> {
	fn status(self) -> i32 {
		self.is_err() as i32
	}
}
impl Outcome for fakestd::process::ExitCode {
	fn status(self) -> i32 {
		self.0 as i32
	}
}
pub fn finish(o: impl Outcome) {
	fakestd::process::exit(o.status())
}
