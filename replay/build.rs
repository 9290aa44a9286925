//! Generates the table of harness entry points from the harness sources.
use std::fmt::Write;
fn main() {
	let dir = std::path::Path::new("../harness/src");
	println!("cargo:rerun-if-changed=../harness/src");
	let mut out = String::from("pub const TABLE: &[(&str, extern \"C\" fn())] = &[\n");
	let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|x| x.unwrap().path()).collect();
	files.sort();
	for f in files {
		let m = f.file_stem().unwrap().to_str().unwrap().to_string();
		let t = std::fs::read_to_string(&f).unwrap();
		for l in t.lines() {
			let Some(r) = l.trim().strip_prefix("pub extern \"C\" fn h_") else { continue };
			let n = format!("h_{}", &r[..r.find('(').unwrap()]);
			writeln!(out, "\t({:?}, harness::{}::{}),", n, m, n).unwrap();
		}
	}
	out.push_str("];\n");
	std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("table.rs"), out).unwrap();
}
