mod dbg;
mod exec;
mod ir;
mod lit;
mod prog;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::*;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			},
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn usage() -> ! {
	eprintln!("usage: symx IR.ll ENTRY [--param N]... [--threads N] [--seed N] [--samples N] [--max-steps N] [--max-paths N] [--timeout SECS] [--fanout N] [--keep-going]");
	std::process::exit(64)
}

extern "C" {
	fn signal(s: i32, h: usize) -> usize;
	fn dup2(a: i32, b: i32) -> i32;
	fn fork() -> i32;
	fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
	fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn main() {
	let a: Vec<String> = std::env::args().skip(1).collect();
	if a.len() < 2 {
		usage();
	}
	if a[0] != "--serve" {
		let t0 = Instant::now();
		let prog = load(&a[0]);
		run(prog, &a[1..], t0);
	}
	// every line on the standard input is "OUTFILE ENTRY [options]"; each is run in a process of its own
	let prog = load(&a[1]);
	unsafe { signal(17, 1) }; // children need not be waited for
	let mut line = String::new();
	while std::io::stdin().read_line(&mut line).unwrap_or(0) > 0 {
		let w: Vec<String> = line.split_whitespace().map(|x| x.to_string()).collect();
		line.clear();
		if w.len() < 2 {
			continue;
		}
		let pid = unsafe { fork() };
		if pid == 0 {
			unsafe {
				prctl(1, 9, 0, 0, 0);
				signal(17, 0);
				let k = fork();
				assert!(k >= 0);
				if k > 0 {
					let mut st = 0;
					waitpid(k, &mut st, 0);
					if !std::path::Path::new(&w[0]).exists() {
						let _ = std::fs::write(&w[0], format!("failed with status {}", st));
					}
					std::process::exit(0);
				}
				prctl(1, 9, 0, 0, 0);
			}
			use std::os::fd::AsRawFd;
			let f = std::fs::File::create(format!("{}.tmp", w[0])).expect("create");
			unsafe { dup2(f.as_raw_fd(), 1) };
			let t0 = Instant::now();
			OUT.with(|o| *o.borrow_mut() = Some(w[0].clone()));
			run(prog, &w[1..], t0);
		}
		assert!(pid > 0);
	}
}

thread_local! {
	static OUT: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

fn load(path: &str) -> Arc<prog::Program> {
	let text = std::fs::read_to_string(path).expect("read IR");
	let m = match ir::parse(&text) {
		Ok(m) => m,
		Err(e) => {
			eprintln!("IR parse error: {}", e);
			std::process::exit(65);
		},
	};
	drop(text);
	match prog::link(m) {
		Ok(p) => Arc::new(p),
		Err(e) => {
			eprintln!("link error: {}", e);
			std::process::exit(65);
		},
	}
}

fn run(prog: Arc<prog::Program>, a: &[String], t0: Instant) -> ! {
	let mut params = vec![];
	let mut threads = 8usize;
	let mut seed = 1u64;
	let mut nsamples = 8usize;
	let mut max_steps = 20_000_000u64;
	let mut max_paths = u64::MAX;
	let mut timeout = 3600f64;
	let mut fanout = 4096usize;
	let mut keep = false;
	let mut i = 1;
	while i < a.len() {
		let v = || a.get(i + 1).unwrap_or_else(|| usage());
		match a[i].as_str() {
			"--param" => params.push(v().parse().unwrap()),
			"--threads" => threads = v().parse().unwrap(),
			"--seed" => seed = v().parse().unwrap(),
			"--samples" => nsamples = v().parse().unwrap(),
			"--max-steps" => max_steps = v().parse().unwrap(),
			"--max-paths" => max_paths = v().parse().unwrap(),
			"--timeout" => timeout = v().parse().unwrap(),
			"--fanout" => fanout = v().parse().unwrap(),
			"--keep-going" => {
				keep = true;
				i += 1;
				continue;
			},
			_ => usage(),
		}
		i += 2;
	}
	let Some(&entry) = prog.fidx.get(&a[0]) else {
		eprintln!("no function {}", a[0]);
		std::process::exit(65);
	};
	extern "C" {
		fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
		fn _exit(c: i32) -> !;
	}
	let deadline = t0 + Duration::from_secs_f64(timeout);
	let flags: &'static Flags = unsafe {
		// PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS: zero-initialised
		let m = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
		assert!(m as isize != -1);
		&*(m as *const Flags)
	};
	let mut kids = vec![];
	for _ in 0..threads {
		let (pa, ch) = std::os::unix::net::UnixStream::pair().expect("socketpair");
		let pid = unsafe { fork() };
		assert!(pid >= 0);
		if pid == 0 {
			unsafe { prctl(1, 9, 0, 0, 0) }; // die with the parent
			drop(pa);
			drop(kids);
			let prog = prog.clone();
			let cfg = Config { entry, params, max_steps, max_paths, seed, nsamples, deadline, keep_going: keep, max_fanout: fanout };
			let r = std::thread::Builder::new()
				.stack_size(1 << 30)
				.spawn(move || Worker::new(Arc::new(Shared { prog, cfg, flags, chan: ch })).main())
				.unwrap()
				.join();
			unsafe { _exit(r.is_err() as i32) };
		}
		drop(ch);
		kids.push((pid, pa));
	}
	struct Q {
		jobs: Vec<Vec<u8>>,
		idle: usize,
	}
	let q = Arc::new((Mutex::new(Q { jobs: vec![vec![]], idle: 0 }), Condvar::new()));
	let stats = Arc::new(Mutex::new(Stats::default()));
	let mut hs = vec![];
	let pids: Vec<i32> = kids.iter().map(|k| k.0).collect();
	for (_, c) in kids {
		let q = q.clone();
		let stats = stats.clone();
		hs.push(std::thread::spawn(move || loop {
			let Ok((tag, b)) = recv(&c) else {
				stats.lock().unwrap().errors.push("engine process died".into());
				flags.stop.store(true, Ordering::SeqCst);
				let _g = q.0.lock().unwrap();
				q.1.notify_all();
				return;
			};
			match tag {
				b'D' => {
					let mut g = q.0.lock().unwrap();
					g.jobs.push(b);
					q.1.notify_one();
				},
				b'I' => {
					let mut g = q.0.lock().unwrap();
					g.idle += 1;
					let job = loop {
						if flags.stop.load(Ordering::SeqCst) {
							q.1.notify_all();
							break None;
						}
						if let Some(j) = g.jobs.pop() {
							break Some(j);
						}
						if g.idle == threads {
							flags.stop.store(true, Ordering::SeqCst);
							q.1.notify_all();
							break None;
						}
						flags.idle.store(g.idle, Ordering::SeqCst);
						g = q.1.wait(g).unwrap();
					};
					if job.is_some() {
						g.idle -= 1;
					}
					flags.idle.store(g.idle, Ordering::SeqCst);
					flags.queued.store(g.jobs.len(), Ordering::SeqCst);
					drop(g);
					let r = match job {
						Some(j) => send(&c, b'J', &j),
						None => send(&c, b'Q', &[]),
					};
					if r.is_err() {
						continue;
					}
				},
				_ => {
					stats.lock().unwrap().merge(Stats::from_bytes(&b));
					return;
				},
			}
		}));
	}
	for h in hs {
		let _ = h.join();
	}
	let mut crashed = false;
	for p in pids {
		let mut stt = 0;
		unsafe { waitpid(p, &mut stt, 0) };
		crashed |= stt != 0;
	}
	let mut st = std::mem::take(&mut *stats.lock().unwrap());
	if crashed {
		st.errors.push("engine process failed".into());
	}
	if flags.timeout.load(Ordering::SeqCst) {
		st.errors.push(format!("time limit of {} s reached", timeout));
	}
	// coverage
	let mut funcs: BTreeMap<(String, String, u32), BTreeSet<u32>> = BTreeMap::new();
	for (f, b) in &st.blocks {
		let fu = &prog.funcs[*f as usize];
		for d in &fu.blocks[*b as usize].dbg {
			for l in dbg::chain(&prog.meta, *d) {
				if l.line > 0 {
					funcs.entry((l.file, l.func, l.fline)).or_default().insert(l.line);
				}
			}
		}
	}
	let mut o = String::new();
	let _ = write!(
		o,
		"{{\"entry\":{},\"paths\":{},\"done\":{},\"panics_allowed\":{},\"infeasible\":{},\"instructions\":{},\"forks\":{},\"branches\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"flips\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"max_inputs\":{},\"max_steps\":{},\"max_path_condition\":{},\"nodes\":{},\"solver\":{},",
		esc(&a[0]), st.paths, st.done, st.panics_allowed, st.infeasible, st.insts, st.forks, st.branches, st.queries, st.sat, st.unsat, st.flips, st.solver_time,
		t0.elapsed().as_secs_f64(), st.max_inputs, st.max_steps, st.max_pc, st.nodes, esc(&format!("z3 {}", z3::version()))
	);
	let _ = write!(o, "\"asserts\":{{");
	for (k, (id, v)) in st.asserts.iter().enumerate() {
		let _ = write!(o, "{}\"{}\":[{},{},{}]", if k > 0 { "," } else { "" }, id, v[0], v[1], v[2]);
	}
	let _ = write!(o, "}},\"covers\":{{");
	for (k, (id, v)) in st.covers.iter().enumerate() {
		let s = st.cover_sample.get(id).map(|x| hex(x)).unwrap_or_default();
		let _ = write!(o, "{}\"{}\":[{},\"{}\"]", if k > 0 { "," } else { "" }, id, v, s);
	}
	let _ = write!(o, "}},\"samples\":[");
	st.samples.sort_by_key(|x| x.key);
	st.samples.truncate(nsamples.max(1));
	for (k, s) in st.samples.iter().enumerate() {
		let obs: Vec<String> = s.obs.iter().map(|x| x.to_string()).collect();
		let _ = write!(
			o,
			"{}{{\"inputs\":\"{}\",\"obs\":[{}],\"outcome\":{}}}",
			if k > 0 { "," } else { "" },
			hex(&s.inputs),
			obs.join(","),
			esc(&s.outcome)
		);
	}
	let _ = write!(o, "],\"violations\":[");
	for (k, v) in st.violations.iter().enumerate() {
		let _ = write!(
			o,
			"{}{{\"kind\":{},\"msg\":{},\"loc\":{},\"inputs\":\"{}\"}}",
			if k > 0 { "," } else { "" },
			esc(&v.kind),
			esc(&v.msg),
			esc(&v.loc),
			hex(&v.inputs)
		);
	}
	let _ = write!(o, "],\"errors\":[");
	st.errors.sort();
	st.errors.dedup();
	for (k, v) in st.errors.iter().enumerate() {
		let _ = write!(o, "{}{}", if k > 0 { "," } else { "" }, esc(v));
	}
	let _ = write!(o, "],\"functions\":[");
	for (k, ((file, func, fl), lines)) in funcs.iter().enumerate() {
		let ls: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
		let _ = write!(
			o,
			"{}{{\"file\":{},\"func\":{},\"at\":{},\"lines\":[{}]}}",
			if k > 0 { "," } else { "" },
			esc(file),
			esc(func),
			fl,
			ls.join(",")
		);
	}
	o.push_str("]}");
	println!("{}", o);
	OUT.with(|f| {
		if let Some(f) = &*f.borrow() {
			let _ = std::fs::rename(format!("{}.tmp", f), f);
		}
	});
	let code = if !st.violations.is_empty() {
		1
	} else if !st.errors.is_empty() {
		2
	} else {
		0
	};
	std::process::exit(code);
}
