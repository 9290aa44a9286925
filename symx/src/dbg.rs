//! Source locations from LLVM debug metadata (line tables only).

use std::collections::HashMap;

fn field<'a>(m: &'a str, k: &str) -> Option<&'a str> {
	let pat = format!("{}: ", k);
	let mut from = 0;
	loop {
		let i = m[from..].find(&pat)? + from;
		let b = m.as_bytes();
		if i > 0 && (b[i - 1] == b'(' || b[i - 1] == b' ') {
			let r = &m[i + pat.len()..];
			if let Some(q) = r.strip_prefix('"') {
				return Some(&q[..q.find('"')?]);
			}
			let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
			return Some(&r[..e]);
		}
		from = i + pat.len();
	}
}

fn mref(m: &str, k: &str) -> Option<u32> {
	field(m, k)?.strip_prefix('!')?.parse().ok()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Loc {
	pub file: String,
	pub func: String,
	pub line: u32,
	/// first line of the function
	pub fline: u32,
}

fn file_of(meta: &HashMap<u32, String>, n: Option<u32>) -> String {
	let Some(m) = n.and_then(|n| meta.get(&n)) else { return String::new() };
	let f = field(m, "filename").unwrap_or("");
	let d = field(m, "directory").unwrap_or("");
	let f = f.split("/@/").next().unwrap_or(f);
	if f.starts_with('/') || d.is_empty() {
		f.to_string()
	} else {
		format!("{}/{}", d, f)
	}
}

/// Innermost first; follows `inlinedAt`.
pub fn chain(meta: &HashMap<u32, String>, mut id: u32) -> Vec<Loc> {
	let mut out = vec![];
	while id != 0 {
		let Some(m) = meta.get(&id) else { break };
		if !m.contains("DILocation(") {
			break;
		}
		let line = field(m, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
		let mut sc = mref(m, "scope");
		let mut file = String::new();
		let mut func = String::new();
		let mut fline = 0;
		for _ in 0..50 {
			let Some(sm) = sc.and_then(|n| meta.get(&n)) else { break };
			if file.is_empty() {
				file = file_of(meta, mref(sm, "file"));
			}
			if sm.contains("DISubprogram(") {
				func = field(sm, "name").unwrap_or("").to_string();
				fline = field(sm, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
				break;
			}
			sc = mref(sm, "scope");
		}
		out.push(Loc { file, func, line, fline });
		id = mref(m, "inlinedAt").unwrap_or(0);
	}
	out
}

pub fn describe(meta: &HashMap<u32, String>, id: u32) -> String {
	let c = chain(meta, id);
	let repo = c.iter().find(|l| !l.file.contains("/rustc/") && !l.file.contains("/library/"));
	match repo.or(c.first()) {
		Some(l) => format!("{}:{} ({})", l.file, l.line, l.func),
		None => String::new(),
	}
}
