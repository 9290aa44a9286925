//! A stand-in for the crate `clap_complete`: the harness says what is generated.
#![no_std]
extern crate alloc;
use alloc::string::String;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Shell {
	Bash,
	Fish,
	Zsh,
	Elvish,
	PowerShell,
}
impl core::fmt::Display for Shell {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		core::fmt::Debug::fmt(self, f)
	}
}
impl clap::Take for Shell {
	fn take(source: &mut dyn clap::Source, name: &str) -> Self {
		match source.number(name) {
			0 => Shell::Bash,
			1 => Shell::Fish,
			2 => Shell::Zsh,
			3 => Shell::Elvish,
			_ => Shell::PowerShell,
		}
	}
}
pub static mut SCRIPT: &[u8] = b"complete\n";
pub static mut SHELL: Option<Shell> = None;
pub fn generate(shell: Shell, _: &mut clap::Command, _: impl Into<String>, out: &mut dyn fakestd::io::Write) {
	unsafe { SHELL = Some(shell) };
	match out.write_all(unsafe { SCRIPT }) {
		Ok(()) => (),
		Err(_) => panic!("failed to generate the script"),
	}
}
