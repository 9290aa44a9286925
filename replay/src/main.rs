//! Runs one harness natively on concrete inputs: `replay ENTRY HEX [PARAM]...`
//!
//! Exit: 0 the harness ran to its end, 1 an assertion failed, 3 the input violates an assumption, 4 panic allowed by
//! the harness, 101 panic, anything else: crashed (or did not end in time).
use harness::rt;
include!(concat!(env!("OUT_DIR"), "/table.rs"));

fn main() {
	let a: Vec<String> = std::env::args().collect();
	if a.len() < 2 {
		eprintln!("usage: replay ENTRY HEX [PARAM]...");
		std::process::exit(64);
	}
	let hex = a.get(2).map(|s| s.as_str()).unwrap_or("");
	let hex = if hex == "-" { "" } else { hex };
	let input: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hex")).collect();
	let params: Vec<u32> = a[3.min(a.len())..].iter().map(|x| x.parse().expect("param")).collect();
	let Some((_, f)) = TABLE.iter().find(|x| x.0 == a[1]) else {
		eprintln!("no harness {}", a[1]);
		std::process::exit(64);
	};
	rt::R.with(|r| {
		let mut r = r.borrow_mut();
		r.input = input;
		r.params = params;
	});
	std::panic::set_hook(Box::new(|i| {
		if rt::R.with(|r| r.borrow().catching) {
			rt::on_panic();
			return;
		}
		if rt::R.with(|r| r.borrow().allow_panic) {
			rt::report("panic-allowed", &i.to_string().replace('\n', " "));
			std::process::exit(4);
		}
		rt::report("panic", &i.to_string().replace('\n', " "));
		std::process::exit(101);
	}));
	f();
	rt::report("done", "");
}
