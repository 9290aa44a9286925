//! The command line tool: its `main` is run with any arguments, against a serial port of the harness.

use crate::fake::*;
use crate::rt::*;
use crate::spec::{self, Bytes};
use clap::{Source, SOURCE};
use core::fmt::{Arguments, Write};
use core::time::Duration;
use log::Level;

extern "C-unwind" {
	fn cli_main();
}

/// The arguments given to the tool.
struct Given {
	command: &'static str,
	port: &'static str,
	baud: u32,
	verbose: u64,
	/// The arguments of the subcommand, in their order: the motor, as text ...
	motor: [u8; 16],
	motor_len: usize,
	/// ... and then numbers,
	numbers: [u64; 2],
	/// the last of them a list of this many.
	data: [u8; 128],
	data_len: usize,
	at: usize,
	data_at: usize,
	listing: bool,
	output: &'static str,
	shell: u64,
}
impl Given {
	fn new(command: &'static str) -> Given {
		Given {
			command,
			port: "/dev/ttyX7",
			baud: 57_600,
			verbose: 0,
			motor: [0; 16],
			motor_len: 0,
			numbers: [0; 2],
			data: [0; 128],
			data_len: 0,
			at: 0,
			data_at: 0,
			listing: false,
			output: "",
			shell: 0,
		}
	}
	fn motor(&mut self, t: &[u8]) {
		self.motor[..t.len()].copy_from_slice(t);
		self.motor_len = t.len();
	}
}
impl Source for Given {
	fn command(&mut self, _: &str) -> &'static str {
		self.at = 0;
		self.command
	}
	fn text(&mut self, name: &str) -> &'static str {
		if clap::same(name, "serial_port") {
			return self.port;
		}
		if clap::same(name, "output") {
			return self.output;
		}
		self.at += 1;
		unsafe { core::str::from_utf8_unchecked(&*(&self.motor[..self.motor_len] as *const [u8])) }
	}
	fn number(&mut self, name: &str) -> u64 {
		if clap::same(name, "baud_rate") {
			return self.baud as u64;
		}
		if clap::same(name, "verbose") {
			return self.verbose;
		}
		if clap::same(name, "shell") {
			return self.shell;
		}
		if self.listing && self.data_at < self.data_len {
			self.data_at += 1;
			return self.data[self.data_at - 1] as u64;
		}
		self.at += 1;
		self.numbers[self.at - 2]
	}
	fn count(&mut self, name: &str) -> usize {
		if clap::same(name, "output") {
			return !self.output.is_empty() as usize;
		}
		self.listing = true;
		self.data_len
	}
}

/// What the tool did.
struct Out {
	text: [u8; 900],
	len: usize,
	lines: u32,
	warnings: u32,
	errors: u32,
	details: u32,
	/// Where the message begins.
	start: usize,
	status: i32,
}
const NO_OUT: Out = Out { text: [0; 900], len: 0, lines: 0, warnings: 0, errors: 0, details: 0, start: 0, status: -1 };
static mut OUT: Out = NO_OUT;
#[allow(static_mut_refs)]
fn out() -> &'static mut Out {
	unsafe { &mut OUT }
}
impl Write for Out {
	fn write_str(&mut self, s: &str) -> core::fmt::Result {
		let b = s.as_bytes();
		for i in 0..b.len() {
			self.text[self.len] = b[i];
			self.len += 1;
		}
		Ok(())
	}
}
fn print(a: Arguments<'_>) {
	let o = out();
	o.lines += 1;
	let _ = o.write_fmt(a);
	let _ = o.write_str("\n");
	o.start = o.len;
}
fn text(b: &[u8]) {
	let o = out();
	for i in 0..b.len() {
		o.text[o.len] = b[i];
		o.len += 1;
	}
}
fn end(l: Level) {
	let o = out();
	if l == Level::Info {
		o.lines += 1;
		o.start = o.len;
		return;
	}
	// What the other messages say is only looked at for the message.
	let m = env_logger::MESSAGE.as_bytes();
	let mut shown = false;
	for i in o.start..(o.len + 1).saturating_sub(m.len()) {
		shown |= eq(&o.text[i..i + m.len()], m);
	}
	o.len = o.start;
	match l {
		Level::Error => o.errors += shown as u32,
		Level::Warn => o.warnings += shown as u32,
		_ => o.details += shown as u32,
	}
}
fn exit(status: i32) -> ! {
	out().status = status;
	panic!("exit")
}

/// Run the tool; its exit status, or -1 if it panics.
fn run(g: &mut Given) -> i32 {
	let o = out();
	*o = NO_OUT;
	unsafe {
		SOURCE = Some(&mut *(g as *mut Given));
		log::reset();
		env_logger::TEXT = text;
		env_logger::END = end;
		fakestd::io::PRINT = print;
		fakestd::process::EXIT = exit;
	}
	let _ = attempt(|| unsafe { cli_main() });
	obs(out().status as u64);
	out().status
}

/// Decimal digits.
fn decimal(v: u32) -> Bytes {
	let mut d = [0u8; 10];
	let mut x = v;
	let mut n = 0;
	loop {
		d[n] = b'0' + (x % 10) as u8;
		x /= 10;
		n += 1;
		if x == 0 {
			break;
		}
	}
	let mut b = Bytes::new();
	for i in 0..n {
		b.push(d[n - 1 - i]);
	}
	b
}
/// `0x` and `digits` hexadecimal digits, with a space before the last four of more.
fn hex(v: u32, digits: usize) -> Bytes {
	let mut b = Bytes::of(b"0x");
	for i in 0..digits {
		if i > 0 && digits - i == 4 {
			b.push(b' ');
		}
		let x = (v >> (4 * (digits - 1 - i)) & 15) as u8;
		b.push(x + b'0' + 7 * (x > 9) as u8);
	}
	b
}
fn word(x: u8) -> bool {
	(x.wrapping_sub(b'0') < 10) | ((x | 0x20).wrapping_sub(b'a') < 26)
}
/// Is `what` in the text, not as a part of a longer word?
fn printed(what: &Bytes) -> bool {
	let o = out();
	let n = what.n;
	let mut found = false;
	for i in 0..(o.len + 1).saturating_sub(n) {
		let mut m = eq(&o.text[i..i + n], what.s());
		if i > 0 {
			m &= !word(o.text[i - 1]);
		}
		if i + n < o.len {
			m &= !word(o.text[i + n]);
		}
		found |= m;
	}
	found
}

const NAMES: [&str; 10] = ["ping", "reboot", "read8", "read16", "read32", "read", "write8", "write16", "write32", "write"];

fn after() -> Duration {
	now() + Duration::from_millis(1)
}

/// Command `param(0)` for one motor (`param(1)` = 1: for all) with any arguments and a reply of `param(2)` bytes more
/// than asked for (-1, 0 or +1: 0, 1, 2; 3: no reply, 4: not even a port). `param(3)` = 0: the arguments are arbitrary,
/// 1: the contents of the reply are, 2: they are one of ten.
#[no_mangle]
pub extern "C" fn h_cli() {
	let (cmd, all, reply, fixed) = (param(0), param(1) == 1, param(2), param(3) > 0);
	let mut p = P::new();
	let p = p.install();
	let mut g = Given::new(NAMES[cmd]);
	let id;
	if all {
		id = 0xFE;
		if any_u8() & 1 == 1 {
			g.motor(b"broadcast");
		} else {
			g.motor(b"254");
		}
	} else {
		id = if fixed { 7 } else { [0, 3, 99, 100, 253][choose(5) as usize] };
		let t = decimal(id as u32);
		g.motor(t.s());
	}
	let address = any_u16();
	g.numbers[0] = address as u64;
	if !fixed {
		g.baud = [57_600, 1_000_000, 9_600, 1_200, 4_500_000, u32::MAX, 1][choose(if reply == 1 { 7 } else { 3 }) as usize];
		g.verbose = any_u8() as u64;
	}
	let mut want = Bytes::new();
	let mut answer = 0;
	let ins;
	match cmd {
		0 => {
			ins = 1;
			answer = 3;
		},
		1 => ins = 8,
		2..=5 => {
			ins = 2;
			answer = [1, 2, 4, 3][cmd - 2];
			want.le16(address);
			let mut count = answer as u16;
			if cmd == 5 {
				if reply == 3 {
					count = [0, 1, 117, 255, 256, 0x1234, 0x8000, 0xFFFF][choose(8) as usize];
				}
				g.numbers[1] = count as u64;
			}
			want.le16(count);
		},
		_ => {
			ins = 3;
			want.le16(address);
			if cmd == 9 {
				g.data_len = pick(0, 4);
				// the address comes first
				fill_any(&mut g.data[..g.data_len]);
				want.put(&g.data[..g.data_len]);
			} else {
				let v = any_u32() as u64 & [0xFF, 0xFFFF, 0xFFFF_FFFF][cmd - 6];
				g.numbers[1] = v;
				for i in 0..[1, 2, 4][cmd - 6] {
					want.push((v >> (8 * i)) as u8);
				}
			}
		},
	}
	let want = spec::frame(id, ins, want.s());
	if reply == 4 {
		p.fail = 1;
		p.fail_kind = KINDS[choose(20) as usize];
	}
	let mut data = [0u8; 5];
	// formatting wide numbers is much work for the solver: one byte of the reply is arbitrary (or four bits of one)
	let mask = if cmd == 4 { 0x0F } else { 0xFF };
	let wide = if param(3) == 1 { choose(5) as usize } else { 9 };
	for i in 0..5 {
		data[i] = if wide == i { any_u8() & mask } else { 0x5A };
	}
	if param(3) == 2 {
		let some = [0u32, 1, 10, 0xFF, 9_999, 65_535, 65_536, 305_419_896, 4_000_000_000, u32::MAX];
		data[..4].copy_from_slice(&some[choose(10) as usize].to_le_bytes());
	}
	let error = any_u8();
	let from = if fixed { id } else { any_u8() };
	let n = answer + reply - 1.min(answer + reply);
	if reply < 3 {
		p.arrive(spec::status(from, error, &data[..n]).s(), after());
	}
	let status = run(&mut g);
	if all && cmd >= 2 && cmd <= 5 {
		check(p.tx_len == 0, 1, "a read from all motors is refused");
		check(status == 1 && out().errors > 0, 2, "a read from all motors is an error");
		cover(1);
		return;
	}
	if reply == 4 {
		check(status == 1 && out().errors > 0, 3, "a port that can not be opened is an error");
		check(p.tx_len == 0, 4, "nothing is sent to a port that can not be opened");
		cover(2);
		return;
	}
	check(p.opens == 1 && p.path_ok && p.settings.baud == g.baud, 5, "the serial port and baud rate given are used");
	check(p.tx_len == want.n && eq(&p.tx[..p.tx_len], want.s()), 6, "exactly the instruction asked for is sent");
	if all {
		if cmd > 0 {
			check(status == 0 && out().errors == 0, 7, "an instruction for all motors succeeds without a reply");
			cover(3);
		} else {
			check(status == 0, 7, "a scan succeeds");
			cover(6);
		}
		return;
	}
	let good = reply < 3 && from == id && error & 0x7F == 0 && n == answer;
	check((status == 0) == good, 8, "the exit status is 0 exactly if the motor answers well");
	check(status == 0 || status == 1, 9, "the exit status of a failure is 1");
	check((out().errors > 0) == !good, 10, "a failure is reported, and only then");
	if !good {
		check(out().lines == 0, 11, "nothing is reported to have been received");
		cover(4);
		return;
	}
	check((out().warnings > 0) == (error == 0x80), 12, "a hardware alert is reported, and only then");
	check(out().lines > 0, 13, "success is reported");
	check((out().details > 0) == (g.verbose > 0), 19, "details are reported exactly if they are asked for");
	let le = |n: usize| {
		let mut v = 0u32;
		for i in 0..n {
			v |= (data[i] as u32) << (8 * i);
		}
		v
	};
	match cmd {
		0 => {
			check(printed(&decimal(le(2))), 14, "the model is reported");
			check(printed(&decimal(data[2] as u32)), 15, "the firmware version is reported");
		},
		2..=4 => {
			let v = le(answer);
			check(printed(&decimal(v)), 16, "the value is printed");
			check(printed(&hex(v, 2 * answer)), 17, "the value is printed in hexadecimal");
		},
		5 => {
			let mut list = Bytes::of(b"[");
			for i in 0..3 {
				list.put(decimal(data[i] as u32).s());
				list.put(if i < 2 { b", " } else { b"]" });
			}
			check(printed(&list), 18, "the bytes are printed");
		},
		_ => (),
	}
	cover(5);
}

/// Command `param(0)` (`read` or `write`) with `param(1)` to `param(2)` bytes, of which one is arbitrary.
#[no_mangle]
pub extern "C" fn h_cli_bytes() {
	let (cmd, n) = (param(0), pick(param(1), param(2)));
	let mut p = P::new();
	let p = p.install();
	let mut g = Given::new(NAMES[cmd]);
	g.motor(b"42");
	let address = any_u16();
	g.numbers[0] = address as u64;
	let mut data = [0u8; 128];
	for i in 0..n {
		data[i] = (i as u8).wrapping_mul(37);
	}
	if n > 0 {
		let at = [0, n - 1, n / 2, n * 2 / 3][choose(4) as usize];
		data[at] = any_u8();
	}
	let mut want = Bytes::new();
	want.le16(address);
	if cmd == 5 {
		g.numbers[1] = n as u64;
		want.le16(n as u16);
		p.arrive(spec::status(42, 0, &data[..n]).s(), after());
	} else {
		g.data[..n].copy_from_slice(&data[..n]);
		g.data_len = n;
		want.put(&data[..n]);
		p.arrive(spec::status(42, 0, &[]).s(), after());
	}
	let want = spec::frame(42, if cmd == 5 { 2 } else { 3 }, want.s());
	let status = run(&mut g);
	check(p.tx_len == want.n && eq(&p.tx[..p.tx_len], want.s()), 1, "exactly the instruction asked for is sent");
	check(status == 0 && out().errors == 0, 2, "a command that the motor answers well succeeds");
	check(out().lines > 0, 3, "success is reported");
	if cmd == 5 {
		let mut list = [0u8; 700];
		let mut m = 1;
		list[0] = b'[';
		for i in 0..n {
			let d = decimal(data[i] as u32);
			list[m..m + d.n].copy_from_slice(d.s());
			m += d.n;
			if i + 1 < n {
				list[m] = b',';
				list[m + 1] = b' ';
				m += 2;
			}
		}
		list[m] = b']';
		m += 1;
		let o = out();
		let mut found = false;
		for i in 0..(o.len + 1).saturating_sub(m) {
			if o.text[i] == b'[' {
				found |= eq(&o.text[i..i + m], &list[..m]);
			}
		}
		check(found, 4, "all bytes are printed");
	}
	cover(1);
}

/// A scan with `param(0)` replies, any of them with an error.
#[no_mangle]
pub extern "C" fn h_cli_scan() {
	let n = param(0);
	let mut p = P::new();
	let p = p.install();
	let mut g = Given::new("ping");
	g.motor(b"Broadcast");
	let mut good = 0;
	let mut what = [(0u8, 0u8, 0u16, 0u8); 3];
	let wide = choose(4);
	for i in 0..n {
		let mut any = |k: u32, other: u8| if wide == k { any_u8() } else { other };
		let (id, m, f) = (any(0, 200 + i as u8), any(1, 3 * i as u8), any(2, 17 + i as u8));
		let m = m as u16 | if wide == 3 { [0, 0x7FFF, 0x8000, 0xFF00][choose(4) as usize] } else { 0x1200 };
		let e = [0u8, 0x80, 3][choose(3) as usize];
		p.arrive(spec::status(id, e, &[m as u8, (m >> 8) as u8, f]).s(), after() + Duration::from_millis(i as u64));
		if e & 0x7F == 0 {
			what[good] = (id, e, m, f);
			good += 1;
		}
	}
	let status = run(&mut g);
	let want = spec::frame(0xFE, 1, &[]);
	check(p.tx_len == want.n && eq(&p.tx[..p.tx_len], want.s()), 1, "exactly one broadcast ping is sent");
	check(status == 0, 2, "a scan succeeds");
	check(out().errors as usize == n - good, 3, "each reply with an error is reported as one");
	for i in 0..good {
		let (id, _, m, f) = what[i];
		check(printed(&decimal(id as u32)), 4, "each motor that replies is reported");
		check(printed(&decimal(m as u32)), 5, "with its model");
		check(printed(&decimal(f as u32)), 6, "with its firmware version");
	}
	if good == 0 {
		check(out().lines == 0, 7, "nothing is reported to have been received");
	}
	cover(1 + good as u32);
}

/// A motor given as any text of `param(0)` characters, to the command `param(1)`.
#[no_mangle]
pub extern "C" fn h_cli_motor() {
	let (n, cmd) = (param(0), param(1));
	let mut p = P::new();
	let p = p.install();
	let mut g = Given::new(NAMES[cmd]);
	let mut t = [0u8; 16];
	let word: &[u8] = b"broadcast";
	let mut broadcast = n == word.len();
	let mut number = n > 0;
	let mut v = 0u32;
	for i in 0..n {
		t[i] = any_u8();
		assume(t[i] < 0x80);
		broadcast &= i < 9 && (t[i] | 0x20) == word[i % 9] && t[i] != 0x20;
		let digit = t[i].wrapping_sub(b'0') < 10;
		number &= digit;
		v = if v < 1000 { v * 10 + t[i].wrapping_sub(b'0') as u32 } else { v };
	}
	// what a sign in front means is left open
	assume(n == 0 || t[0] != b'+' && t[0] != b'-');
	g.motor(&t[..n]);
	let status = run(&mut g);
	let id = if broadcast {
		Some(0xFE)
	} else if number && v < 256 {
		Some(v as u8)
	} else {
		None
	};
	match id {
		None => {
			check(status == 2 && p.tx_len == 0, 1, "what is no motor is refused");
			cover(1);
		},
		Some(0xFE) if (2..=5).contains(&cmd) => {
			check(status == 1 && p.tx_len == 0, 3, "a read from all motors is refused");
			cover(4);
		},
		Some(id) => {
			check(p.tx_len > 4 && p.tx[4] == id, 2, "the instruction is sent to the motor given");
			if broadcast {
				cover(2);
			} else {
				cover(3);
			}
		},
	}
}

/// What was written to a file or to the standard output.
struct Sink {
	/// 1: the standard output, 2: the file.
	to: u8,
	name_ok: bool,
	data: [u8; 40],
	len: usize,
	made: u32,
	mixed: bool,
	no_file: bool,
	/// Writing fails after so many bytes.
	room: usize,
	/// The most bytes in one piece.
	piece: usize,
}
static mut SINK: Sink = Sink { to: 0, name_ok: false, data: [0; 40], len: 0, made: 0, mixed: false, no_file: false, room: 0, piece: 0 };
const PATH: &str = "/tmp/X/complete.sh";
#[allow(static_mut_refs)]
fn sink() -> &'static mut Sink {
	unsafe { &mut SINK }
}
fn take(to: u8, b: &[u8]) -> fakestd::io::Result<usize> {
	let s = sink();
	s.mixed |= s.to != 0 && s.to != to;
	s.to = to;
	let mut n = b.len();
	if n > s.piece {
		n = s.piece;
	}
	if n > s.room - s.len {
		n = s.room - s.len;
	}
	if n == 0 && b.len() > 0 {
		return Err(fakestd::io::Error::made(fakestd::io::ErrorKind::Other, 28));
	}
	s.data[s.len..][..n].copy_from_slice(&b[..n]);
	s.len += n;
	Ok(n)
}
fn take_out(b: &[u8]) -> fakestd::io::Result<usize> {
	take(1, b)
}
fn take_file(b: &[u8]) -> fakestd::io::Result<usize> {
	take(2, b)
}
fn take_print(a: Arguments<'_>) {
	struct W;
	impl Write for W {
		fn write_str(&mut self, s: &str) -> core::fmt::Result {
			match take(1, s.as_bytes()) {
				Ok(n) if n == s.len() => Ok(()),
				// as the macros do
				_ => panic!("failed printing to stdout"),
			}
		}
	}
	let _ = W.write_fmt(a);
}
fn make(name: &str) -> fakestd::io::Result<()> {
	let s = sink();
	s.made += 1;
	s.name_ok = eq(name.as_bytes(), PATH.as_bytes());
	if s.no_file {
		return Err(fakestd::io::Error::made(fakestd::io::ErrorKind::PermissionDenied, 13));
	}
	Ok(())
}

/// Shell completions: `param(0)` characters (with or without an end of line) are written to the standard output (`param(1)` = 0: no
/// file given, 1: `-`) or to a file (2), which may fail at any point.
#[no_mangle]
pub extern "C" fn h_cli_completion() {
	let (n, how) = (param(0), param(1));
	let mut p = P::new();
	let p = p.install();
	let mut script = [b'#'; 32];
	for i in 0..n {
		script[i] = any_u8();
		assume(script[i] < 0x80);
	}
	let ends = n > 0 && script[n - 1] == b'\n';
	let mut want = script;
	if !ends {
		want[n] = b'\n';
	}
	let total = n + !ends as usize;
	let room = [0, 1, n / 2, n, 40][choose(5) as usize];
	let no_file = how == 2 && choose(2) == 1;
	*sink() = Sink { to: 0, name_ok: false, data: [0; 40], len: 0, made: 0, mixed: false, no_file, room, piece: [1, 3, 40][choose(3) as usize] };
	let mut g = Given::new("shell-completion");
	g.output = ["", "-", PATH][how];
	g.shell = choose(5) as u64;
	unsafe {
		clap_complete::SCRIPT = &*(&script[..n] as *const [u8]);
		clap_complete::SHELL = None;
	}
	let o = out();
	*o = NO_OUT;
	unsafe {
		SOURCE = Some(&mut *(&mut g as *mut Given));
		log::reset();
		env_logger::TEXT = text;
		env_logger::END = end;
		fakestd::io::PRINT = take_print;
		fakestd::io::STDOUT = take_out;
		fakestd::fs::CREATE = make;
		fakestd::fs::WRITE = take_file;
		fakestd::process::EXIT = exit;
	}
	let _ = attempt(|| unsafe { cli_main() });
	obs(out().status as u64);
	let (o, s) = (out(), sink());
	check(p.tx_len == 0, 1, "nothing is sent");
	check(!s.mixed && s.to != if how == 2 { 1 } else { 2 }, 2, "the completions are written to where they should be");
	check(if how == 2 { s.made == 1 && s.name_ok } else { s.made == 0 }, 3, "just the file given is made");
	let shell = unsafe { clap_complete::SHELL };
	check(matches!(shell, Some(x) if x as u64 == g.shell), 4, "the completions are those for the shell given");
	if !no_file && room >= total {
		check(o.status == 0 && o.errors == 0, 5, "the tool succeeds");
		check(s.len == total && eq(&s.data[..total], &want[..total]), 6, "the completions are written, with an end of line");
		cover(1);
	} else {
		check(o.status == 1, 7, "the tool fails if it can not write");
		check(o.errors > 0, 8, "the failure is reported");
		cover(2);
	}
}
