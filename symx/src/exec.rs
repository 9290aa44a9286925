//! The symbolic interpreter.

use crate::ir::*;
use crate::lit::*;
use crate::prog::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;

pub const UNINIT: u32 = 256;

#[derive(Clone, Debug)]
pub enum Val {
	C(u128),
	S(Rc<[Lit]>),
	A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
	pub data: Vec<u32>,
	pub ro: bool,
	pub alive: bool,
	pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
	func: u32,
	block: u32,
	ip: u32,
	prev: u32,
	regs: Vec<Val>,
	allocas: Vec<u32>,
	dst: Option<u32>,
	next: Option<u32>,
	kind: FrameKind,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum FrameKind {
	Call,
	/// Called by `symx_try`: a panic ends this frame.
	Try,
	/// An interrupt handler: returns to the instruction that it interrupted.
	Interrupt,
}

#[derive(Clone)]
pub struct State {
	frames: Vec<Frame>,
	mem: Vec<Option<Rc<Obj>>>,
	free: Vec<u32>,
	pc: Vec<Lit>,
	known: Rc<HashMap<u32, bool>>,
	/// identifies the contents of `known`
	kver: u64,
	model: Rc<Vec<u8>>,
	mid: u64,
	nvars: u32,
	inputs: Vec<u32>,
	/// (position, value) of every decision taken; position = steps << 12 | index within the instruction
	decisions: Vec<(u64, u128)>,
	sub: u64,
	obs: Vec<Val>,
	allow_panic: bool,
	/// The function that may interrupt the next access to static memory.
	irq: Option<u32>,
	/// The step at which an interrupt was considered last.
	irq_step: u64,
	covers: Vec<u32>,
	steps: u64,
	live_heap: i64,
}

pub enum End {
	Done,
	AllowedPanic,
	Infeasible,
	Violation(String, String),
	Error(String),
}

type X<T> = Result<T, End>;

#[derive(Clone, Debug)]
pub struct Sample {
	pub inputs: Vec<u8>,
	pub obs: Vec<u64>,
	pub outcome: String,
	pub key: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
	pub kind: String,
	pub msg: String,
	pub loc: String,
	pub inputs: Vec<u8>,
	pub outcome: String,
}

#[derive(Default, Clone)]
pub struct Stats {
	pub paths: u64,
	pub done: u64,
	pub panics_allowed: u64,
	pub infeasible: u64,
	pub insts: u64,
	pub forks: u64,
	pub branches: u64,
	pub queries: u64,
	pub sat: u64,
	pub unsat: u64,
	pub flips: u64,
	pub solver_time: f64,
	pub asserts: BTreeMap<u32, [u64; 3]>, // [evaluated, decided by simplification, decided by solver (unsat)]
	pub covers: BTreeMap<u32, u64>,
	pub cover_sample: BTreeMap<u32, Vec<u8>>,
	pub samples: Vec<Sample>,
	pub violations: Vec<Violation>,
	pub errors: Vec<String>,
	pub blocks: HashSet<(u32, u32)>,
	pub max_inputs: usize,
	pub max_steps: u64,
	pub max_pc: usize,
	pub nodes: u64,
}

impl Stats {
	pub fn merge(&mut self, o: Stats) {
		self.paths += o.paths;
		self.done += o.done;
		self.panics_allowed += o.panics_allowed;
		self.infeasible += o.infeasible;
		self.insts += o.insts;
		self.forks += o.forks;
		self.branches += o.branches;
		self.queries += o.queries;
		self.sat += o.sat;
		self.unsat += o.unsat;
		self.flips += o.flips;
		self.solver_time += o.solver_time;
		for (k, v) in o.asserts {
			let e = self.asserts.entry(k).or_default();
			for i in 0..3 {
				e[i] += v[i];
			}
		}
		for (k, v) in o.covers {
			*self.covers.entry(k).or_default() += v;
		}
		for (k, v) in o.cover_sample {
			self.cover_sample.entry(k).or_insert(v);
		}
		self.samples.extend(o.samples);
		self.violations.extend(o.violations);
		self.errors.extend(o.errors);
		self.blocks.extend(o.blocks);
		self.max_inputs = self.max_inputs.max(o.max_inputs);
		self.max_steps = self.max_steps.max(o.max_steps);
		self.max_pc = self.max_pc.max(o.max_pc);
		self.nodes += o.nodes;
	}
}

struct W(Vec<u8>);
impl W {
	fn u(&mut self, x: u64) {
		self.0.extend_from_slice(&x.to_le_bytes());
	}
	fn b(&mut self, x: &[u8]) {
		self.u(x.len() as u64);
		self.0.extend_from_slice(x);
	}
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
	fn u(&mut self) -> u64 {
		let (a, b) = self.0.split_at(8);
		self.0 = b;
		u64::from_le_bytes(a.try_into().unwrap())
	}
	fn b(&mut self) -> Vec<u8> {
		let n = self.u() as usize;
		let (a, b) = self.0.split_at(n);
		self.0 = b;
		a.to_vec()
	}
	fn s(&mut self) -> String {
		String::from_utf8_lossy(&self.b()).to_string()
	}
}

impl Stats {
	pub fn to_bytes(&self) -> Vec<u8> {
		let mut w = W(vec![]);
		for x in [
			self.paths, self.done, self.panics_allowed, self.infeasible, self.insts, self.forks, self.branches, self.queries, self.sat, self.unsat,
			self.flips, self.solver_time.to_bits(), self.max_inputs as u64, self.max_steps, self.max_pc as u64, self.nodes,
		] {
			w.u(x);
		}
		w.u(self.asserts.len() as u64);
		for (k, v) in &self.asserts {
			w.u(*k as u64);
			v.iter().for_each(|x| w.u(*x));
		}
		w.u(self.covers.len() as u64);
		for (k, v) in &self.covers {
			w.u(*k as u64);
			w.u(*v);
		}
		w.u(self.cover_sample.len() as u64);
		for (k, v) in &self.cover_sample {
			w.u(*k as u64);
			w.b(v);
		}
		w.u(self.samples.len() as u64);
		for x in &self.samples {
			w.b(&x.inputs);
			w.u(x.obs.len() as u64);
			x.obs.iter().for_each(|o| w.u(*o));
			w.b(x.outcome.as_bytes());
			w.u(x.key);
		}
		w.u(self.violations.len() as u64);
		for x in &self.violations {
			w.b(x.kind.as_bytes());
			w.b(x.msg.as_bytes());
			w.b(x.loc.as_bytes());
			w.b(&x.inputs);
		}
		w.u(self.errors.len() as u64);
		for x in &self.errors {
			w.b(x.as_bytes());
		}
		w.u(self.blocks.len() as u64);
		for (a, b) in &self.blocks {
			w.u(*a as u64);
			w.u(*b as u64);
		}
		w.0
	}
	pub fn from_bytes(b: &[u8]) -> Stats {
		let mut r = Rd(b);
		let mut s = Stats::default();
		s.paths = r.u();
		s.done = r.u();
		s.panics_allowed = r.u();
		s.infeasible = r.u();
		s.insts = r.u();
		s.forks = r.u();
		s.branches = r.u();
		s.queries = r.u();
		s.sat = r.u();
		s.unsat = r.u();
		s.flips = r.u();
		s.solver_time = f64::from_bits(r.u());
		s.max_inputs = r.u() as usize;
		s.max_steps = r.u();
		s.max_pc = r.u() as usize;
		s.nodes = r.u();
		for _ in 0..r.u() {
			let k = r.u() as u32;
			let v = [r.u(), r.u(), r.u()];
			s.asserts.insert(k, v);
		}
		for _ in 0..r.u() {
			let k = r.u() as u32;
			let v = r.u();
			s.covers.insert(k, v);
		}
		for _ in 0..r.u() {
			let k = r.u() as u32;
			let v = r.b();
			s.cover_sample.insert(k, v);
		}
		for _ in 0..r.u() {
			let inputs = r.b();
			let n = r.u();
			let obs = (0..n).map(|_| r.u()).collect();
			let outcome = r.s();
			let key = r.u();
			s.samples.push(Sample { inputs, obs, outcome, key });
		}
		for _ in 0..r.u() {
			let kind = r.s();
			let msg = r.s();
			let loc = r.s();
			let inputs = r.b();
			s.violations.push(Violation { kind, msg, loc, inputs, outcome: String::new() });
		}
		for _ in 0..r.u() {
			let e = r.s();
			s.errors.push(e);
		}
		for _ in 0..r.u() {
			let a = r.u() as u32;
			let b = r.u() as u32;
			s.blocks.insert((a, b));
		}
		s
	}
}

pub struct Config {
	pub entry: u32,
	pub params: Vec<u32>,
	pub max_steps: u64,
	pub max_paths: u64,
	pub seed: u64,
	pub nsamples: usize,
	pub deadline: std::time::Instant,
	pub keep_going: bool,
	pub max_fanout: usize,
}

/// State shared between the worker processes (lives in a shared mapping).
pub struct Flags {
	pub idle: AtomicUsize,
	pub queued: AtomicUsize,
	pub stop: AtomicBool,
	pub paths: AtomicU64,
	pub timeout: AtomicBool,
}

pub struct Shared {
	pub prog: Arc<Program>,
	pub cfg: Config,
	pub flags: &'static Flags,
	pub chan: std::os::unix::net::UnixStream,
}

pub type Job = Vec<(u64, u128)>;

pub fn send(mut c: &std::os::unix::net::UnixStream, tag: u8, p: &[u8]) -> std::io::Result<()> {
	use std::io::Write;
	let mut m = vec![tag];
	m.extend_from_slice(&(p.len() as u64).to_le_bytes());
	m.extend_from_slice(p);
	c.write_all(&m)
}

pub fn recv(mut c: &std::os::unix::net::UnixStream) -> std::io::Result<(u8, Vec<u8>)> {
	use std::io::Read;
	let mut h = [0u8; 9];
	c.read_exact(&mut h)?;
	let n = u64::from_le_bytes(h[1..9].try_into().unwrap()) as usize;
	let mut b = vec![0u8; n];
	c.read_exact(&mut b)?;
	Ok((h[0], b))
}

fn job_bytes(j: &Job) -> Vec<u8> {
	let mut o = vec![];
	for (a, b) in j {
		o.extend_from_slice(&a.to_le_bytes());
		o.extend_from_slice(&b.to_le_bytes());
	}
	o
}

fn job_parse(b: &[u8]) -> Job {
	b.chunks(24)
		.map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u128::from_le_bytes(c[8..24].try_into().unwrap())))
		.collect()
}

pub struct Worker {
	sh: Arc<Shared>,
	prog: Arc<Program>,
	l: Lits,
	z: Solver,
	bytes: Vec<[Lit; 8]>,
	bidx: HashMap<[Lit; 8], u32>,
	init_mem: Vec<Option<Rc<Obj>>>,
	stack: Vec<State>,
	script: Vec<(u64, u128)>, // decisions still to be replayed (reverse order)
	need_model: bool,
	mid: u64,
	st: Stats,
	/// simplifications under the `known` literals of version `simp_ver`
	simp_memo: HashMap<u32, Lit>,
	simp_ver: u64,
	kver: u64,
	seen: Vec<Vec<bool>>,
}

fn splitmix(mut x: u64) -> u64 {
	x = x.wrapping_add(0x9e3779b97f4a7c15);
	x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
	x ^ (x >> 31)
}

impl Worker {
	pub fn new(sh: Arc<Shared>) -> Self {
		let prog = sh.prog.clone();
		let init_mem = prog
			.globals
			.iter()
			.map(|(_, d, _, ro)| {
				d.as_ref().map(|b| {
					Rc::new(Obj { data: b.iter().map(|x| *x as u32).collect(), ro: *ro, alive: true, heap: false })
				})
			})
			.collect();
		let seen = prog.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
		Worker {
			sh,
			prog,
			l: Lits::new(),
			z: Solver::new(),
			bytes: vec![],
			bidx: HashMap::new(),
			init_mem,
			stack: vec![],
			script: vec![],
			need_model: false,
			mid: 1,
			st: Stats::default(),
			simp_memo: HashMap::new(),
			simp_ver: 0,
			kver: 0,
			seen,
		}
	}

	fn reset_nodes(&mut self) {
		self.st.nodes += self.l.nodes.len() as u64;
		self.l = Lits::new();
		self.take_solver_stats();
		self.z = Solver::new();
		self.bytes.clear();
		self.bidx.clear();
		self.simp_memo.clear();
	}

	fn take_solver_stats(&mut self) {
		self.st.queries += self.z.queries;
		self.st.sat += self.z.sat;
		self.st.unsat += self.z.unsat;
		self.st.solver_time += self.z.time;
		self.z.queries = 0;
		self.z.sat = 0;
		self.z.unsat = 0;
		self.z.time = 0.0;
	}

	pub fn main(mut self) {
		loop {
			if send(&self.sh.chan, b'I', &[]).is_err() {
				return;
			}
			let Ok((tag, b)) = recv(&self.sh.chan) else { return };
			if tag != b'J' {
				break;
			}
			if self.l.nodes.len() > 2_000_000 {
				self.reset_nodes();
			}
			self.run_job(job_parse(&b));
		}
		self.take_solver_stats();
		self.st.nodes += self.l.nodes.len() as u64;
		for (f, v) in self.seen.iter().enumerate() {
			for (b, s) in v.iter().enumerate() {
				if *s {
					self.st.blocks.insert((f as u32, b as u32));
				}
			}
		}
		let s = std::mem::take(&mut self.st);
		let _ = send(&self.sh.chan, b'S', &s.to_bytes());
	}

	fn run_job(&mut self, job: Vec<(u64, u128)>) {
		let f = self.sh.cfg.entry;
		let nregs = self.prog.funcs[f as usize].nregs as usize;
		self.script = job;
		self.script.reverse();
		self.need_model = !self.script.is_empty();
		let st = State {
			frames: vec![Frame {
				func: f,
				block: 0,
				ip: 0,
				prev: 0,
				regs: vec![Val::C(0); nregs],
				allocas: vec![],
				dst: None,
				next: None,
				kind: FrameKind::Call,
			}],
			mem: self.init_mem.clone(),
			free: vec![],
			pc: vec![],
			known: Rc::new(HashMap::new()),
			kver: 0,
			model: Rc::new(vec![]),
			mid: 0,
			nvars: 0,
			inputs: vec![],
			decisions: vec![],
			sub: 0,
			obs: vec![],
			allow_panic: false,
			covers: vec![],
			steps: 0,
			irq: None,
			irq_step: 0,
			live_heap: 0,
		};
		self.stack.clear();
		self.stack.push(st);
		while let Some(mut s) = self.stack.pop() {
			if self.sh.flags.stop.load(Ordering::Relaxed) {
				return;
			}
			if std::time::Instant::now() > self.sh.cfg.deadline {
				self.sh.flags.timeout.store(true, Ordering::SeqCst);
				self.sh.flags.stop.store(true, Ordering::SeqCst);
				return;
			}
			let base = s.steps;
			let mut e = match self.run(&mut s) {
				Ok(()) => End::Done,
				Err(e) => e,
			};
			// a replayed prefix whose last entries turned out to be constants here
			self.script.clear();
			if !matches!(e, End::Error(_)) {
				if let Err(x) = self.settle(&mut s) {
					e = x;
				}
			}
			self.need_model = false;
			self.st.insts += s.steps - base;
			self.finish(s, e);
		}
	}

	fn input_bytes(&mut self, s: &State) -> Vec<u8> {
		let mut out = vec![];
		for &b in &s.inputs {
			let mut x = 0u8;
			for j in 0..8 {
				if *s.model.get((b + j) as usize).unwrap_or(&0) == 1 {
					x |= 1 << j;
				}
			}
			out.push(x);
		}
		out
	}

	fn finish(&mut self, s: State, e: End) {
		self.st.paths += 1;
		let n = self.sh.flags.paths.fetch_add(1, Ordering::Relaxed) + 1;
		if n > self.sh.cfg.max_paths {
			self.st.errors.push(format!("path limit {} exceeded", self.sh.cfg.max_paths));
			self.sh.flags.stop.store(true, Ordering::SeqCst);
		}
		self.st.max_inputs = self.st.max_inputs.max(s.inputs.len());
		self.st.max_steps = self.st.max_steps.max(s.steps);
		self.st.max_pc = self.st.max_pc.max(s.pc.len());
		let outcome = match &e {
			End::Done => "done",
			End::AllowedPanic => "panic",
			_ => "",
		};
		match e {
			End::Done | End::AllowedPanic => {
				if outcome == "done" {
					self.st.done += 1;
				} else {
					self.st.panics_allowed += 1;
				}
				for &c in &s.covers {
					*self.st.covers.entry(c).or_default() += 1;
				}
				let fresh = s.covers.iter().any(|c| !self.st.cover_sample.contains_key(c));
				let mut key = self.sh.cfg.seed;
				for d in &s.decisions {
					key = splitmix(key ^ (d.1 as u64));
				}
				key = splitmix(key);
				let want = self.st.samples.len() < self.sh.cfg.nsamples || self.st.samples.iter().any(|x| x.key > key);
				if fresh || want {
					let inputs = self.input_bytes(&s);
					for &c in &s.covers {
						self.st.cover_sample.entry(c).or_insert(inputs.clone());
					}
					if want && self.sh.cfg.nsamples > 0 {
						let mut obs = vec![];
						for v in &s.obs {
							obs.push(self.eval_val(v, &s.model, s.mid) as u64);
						}
						self.st.samples.push(Sample { inputs, obs, outcome: outcome.to_string(), key });
						if self.st.samples.len() > self.sh.cfg.nsamples {
							let (i, _) = self.st.samples.iter().enumerate().max_by_key(|(_, x)| x.key).unwrap();
							self.st.samples.swap_remove(i);
						}
					}
				}
			},
			End::Infeasible => self.st.infeasible += 1,
			End::Violation(kind, msg) => {
				let inputs = self.input_bytes(&s);
				let loc = self.location(&s);
				if !self.st.violations.iter().any(|v| v.kind == kind && v.loc == loc) {
					self.st.violations.push(Violation { kind, msg, loc, inputs, outcome: String::new() });
				}
				if !self.sh.cfg.keep_going {
					self.sh.flags.stop.store(true, Ordering::SeqCst);
				}
			},
			End::Error(m) => {
				let loc = self.location(&s);
				self.st.errors.push(format!("{} at {}", m, loc));
				self.sh.flags.stop.store(true, Ordering::SeqCst);
			},
		}
	}

	fn location(&self, s: &State) -> String {
		let mut out = String::new();
		for f in s.frames.iter().rev().take(3) {
			let fu = &self.prog.funcs[f.func as usize];
			let b = &fu.blocks[f.block as usize];
			let d = b.dbg.get(f.ip as usize).copied().unwrap_or(0);
			let l = crate::dbg::describe(&self.prog.meta, d);
			if !out.is_empty() {
				out.push_str(" <- ");
			}
			if l.is_empty() {
				out.push_str(&format!("{}:{}:{}", fu.name, b.name, f.ip));
			} else {
				out.push_str(&l);
			}
		}
		out
	}

	fn eval_val(&mut self, v: &Val, model: &[u8], mid: u64) -> u128 {
		match v {
			Val::C(x) => *x,
			Val::S(b) => {
				let mut r = 0u128;
				for (i, x) in b.iter().enumerate() {
					if self.l.eval(*x, model, mid) {
						r |= 1 << i;
					}
				}
				r
			},
			Val::A(_) => 0,
		}
	}

	// ------------------------------------------------------------ path condition

	fn known_lit(s: &State, x: Lit) -> Lit {
		match s.known.get(&nid(x)) {
			Some(v) => (*v as u32) ^ (x & 1),
			None => x,
		}
	}

	fn simp_deep(&mut self, s: &State, x: Lit) -> Lit {
		if x <= 1 {
			return x;
		}
		if self.simp_ver != s.kver {
			self.simp_ver = s.kver;
			self.simp_memo.clear();
		}
		self.simp_rec(s, x)
	}
	fn simp_rec(&mut self, s: &State, x: Lit) -> Lit {
		let n = nid(x);
		if n == 0 {
			return x;
		}
		if let Some(v) = s.known.get(&n) {
			return (*v as u32) ^ (x & 1);
		}
		if let Some(r) = self.simp_memo.get(&n) {
			return *r ^ (x & 1);
		}
		let r = match self.l.nodes[n as usize].clone() {
			Node::Const => F,
			Node::Var(_) => n << 1,
			Node::And(a, b) => {
				let a2 = self.simp_rec(s, a);
				if a2 == F {
					F
				} else {
					let b2 = self.simp_rec(s, b);
					self.l.and(a2, b2)
				}
			},
			Node::Xor(at) => {
				let mut acc = F;
				let mut changed = false;
				let mut rest: Vec<u32> = vec![];
				for &a in at.iter() {
					let y = self.simp_rec(s, a << 1);
					if y == a << 1 {
						rest.push(a);
					} else {
						changed = true;
						acc = self.l.xor(acc, y);
					}
				}
				if !changed {
					n << 1
				} else {
					for a in rest {
						acc = self.l.xor(acc, a << 1);
					}
					acc
				}
			},
		};
		let r = if r > 1 { Self::known_lit(s, r) } else { r };
		self.simp_memo.insert(n, r);
		r ^ (x & 1)
	}

	fn add_known(&mut self, s: &mut State, x: Lit) {
		let mut q = vec![x];
		let k = Rc::make_mut(&mut s.known);
		while let Some(x) = q.pop() {
			let n = nid(x);
			if n == 0 {
				continue;
			}
			let v = x & 1 == 0;
			if k.contains_key(&n) {
				continue;
			}
			k.insert(n, v);
			self.kver += 1;
			s.kver = self.kver;
			match &self.l.nodes[n as usize] {
				Node::And(a, b) => {
					if v {
						q.push(*a);
						q.push(*b);
					} else {
						let kv = |y: Lit| k.get(&nid(y)).map(|v| *v ^ (y & 1 == 1));
						match (kv(*a), kv(*b)) {
							(Some(true), None) => q.push(not(*b)),
							(None, Some(true)) => q.push(not(*a)),
							_ => {},
						}
					}
				},
				Node::Xor(at) => {
					let mut unk = None;
					let mut many = false;
					let mut par = v;
					for a in at.iter() {
						match k.get(a) {
							Some(b) => par ^= *b,
							None => {
								if unk.is_some() {
									many = true;
									break;
								}
								unk = Some(*a);
							},
						}
					}
					if !many {
						if let Some(a) = unk {
							q.push((a << 1) | (!par) as u32);
						}
					}
				},
				_ => {},
			}
		}
	}

	/// Add a literal (known to be consistent with the path) to the path condition.
	fn constrain(&mut self, s: &mut State, x: Lit) {
		if x == T {
			return;
		}
		s.pc.push(x);
		self.add_known(s, x);
	}

	fn model_true(&mut self, s: &State, x: Lit) -> bool {
		let m = s.model.clone();
		self.l.eval(x, &m, s.mid)
	}

	fn newmid(&mut self) -> u64 {
		self.mid += 1;
		self.mid
	}

	fn force(l: &mut Lits, s: &State, m: &mut Vec<u8>, cur: (&[u8], u64), x: Lit, variant: u32, depth: u32) -> bool {
		if depth > 40 {
			return false;
		}
		let n = nid(x);
		let want = x & 1 == 0;
		if n == 0 {
			return !want;
		}
		if let Some(v) = s.known.get(&n) {
			return *v == want;
		}
		if l.eval(x, cur.0, cur.1) && !matches!(l.nodes[n as usize], Node::And(..)) {
			// keep as is (still pin variables)
			return true;
		}
		match l.nodes[n as usize].clone() {
			Node::Const => false,
			Node::Var(v) => {
				let v = v as usize;
				if m.len() <= v {
					m.resize(v + 1, 0);
				}
				m[v] = want as u8;
				true
			},
			Node::And(a, b) => {
				if want {
					Self::force(l, s, m, cur, a, variant, depth + 1) && Self::force(l, s, m, cur, b, variant, depth + 1)
				} else {
					let (p, q) = if variant & 1 == 0 { (a, b) } else { (b, a) };
					Self::force(l, s, m, cur, not(p), variant >> 1, depth + 1)
						|| Self::force(l, s, m, cur, not(q), variant >> 1, depth + 1)
				}
			},
			Node::Xor(at) => {
				let k = at.len();
				for i in 0..k {
					let a = at[(i + variant as usize) % k];
					if s.known.contains_key(&a) {
						continue;
					}
					if let Node::Var(v) = l.nodes[a as usize] {
						let v = v as usize;
						if m.len() <= v {
							m.resize(v + 1, 0);
						}
						m[v] ^= 1;
						return true;
					}
				}
				false
			},
		}
	}

	/// Is path ∧ x satisfiable? Returns a model if so.
	fn feasible(&mut self, s: &State, x: Lit) -> X<Option<(Rc<Vec<u8>>, u64)>> {
		self.feasible_all(s, &[x])
	}

	fn feasible_all(&mut self, s: &State, xs: &[Lit]) -> X<Option<(Rc<Vec<u8>>, u64)>> {
		if xs.iter().any(|x| *x == F) {
			return Ok(None);
		}
		for variant in 0..2u32 {
			let mut m = (*s.model).clone();
			let cur = s.model.clone();
			let mut ok = true;
			for &x in xs {
				ok = ok && Self::force(&mut self.l, s, &mut m, (&cur, s.mid), x, variant, 0);
			}
			if ok {
				let mid = self.newmid();
				let mut good = xs.iter().all(|x| self.l.eval(*x, &m, mid));
				if good {
					for i in (0..s.pc.len()).rev() {
						if !self.l.eval(s.pc[i], &m, mid) {
							good = false;
							break;
						}
					}
				}
				if good {
					self.st.flips += 1;
					return Ok(Some((Rc::new(m), mid)));
				}
			}
		}
		let mut a = s.pc.clone();
		a.extend_from_slice(xs);
		let mut m = (*s.model).clone();
		let (q, pivots) = self.l.reduce(&a);
		let t0 = std::time::Instant::now();
		let zr = self.z.check(&self.l, &q, &mut m);
		if t0.elapsed().as_secs_f64() > 0.5 && std::env::var_os("SYMX_SLOW").is_some() {
			let (mut lin, mut cl) = (vec![], 0);
			for x in &q {
				match &self.l.nodes[nid(*x) as usize] {
					Node::Xor(at) => lin.push((at.len(), at.iter().filter(|a| matches!(self.l.nodes[**a as usize], Node::Var(_))).count())),
					_ => cl += 1,
				}
			}
			eprintln!("slow {:.1}s {:?} of {}: {} clauses, linear {:?}, {} solved, at {}", t0.elapsed().as_secs_f64(), zr, a.len(), cl, lin, pivots.len(), self.location(s));
		}
		match zr {
			Res::Sat => {
				if !pivots.is_empty() {
					let mid = self.newmid();
					let base = m.clone();
					for (v, neg, rest) in pivots.iter().rev() {
						let mut b = *neg;
						for &at in rest {
							b ^= match self.l.nodes[at as usize] {
								Node::Var(u) => m.get(u as usize).copied().unwrap_or(0) == 1,
								_ => self.l.eval(at << 1, &base, mid),
							};
						}
						let v = *v as usize;
						if m.len() <= v {
							m.resize(v + 1, 0);
						}
						m[v] = b as u8;
					}
				}
				let mid = self.newmid();
				// the model must satisfy the path condition under our own evaluator as well
				for x in &a {
					if !self.l.eval(*x, &m, mid) {
						return Err(End::Error("solver model does not satisfy the query".into()));
					}
				}
				Ok(Some((Rc::new(m), mid)))
			},
			Res::Unsat => Ok(None),
			Res::Unknown => Err(End::Error(format!("solver unknown: {}", self.z.unknown_reason))),
		}
	}

	fn replaying(&self) -> bool {
		!self.script.is_empty()
	}

	/// Start a decision: returns the scripted value, if a prefix is being replayed and has one here.
	/// Once the prefix is used up, gets a model for the state.
	fn at_decision(&mut self, s: &mut State) -> X<(u64, Option<u128>)> {
		let pos = s.steps << 12 | s.sub;
		s.sub += 1;
		let mut hit = None;
		while let Some(&(p, v)) = self.script.last() {
			if p > pos {
				break;
			}
			self.script.pop();
			if p == pos {
				hit = Some(v);
				break;
			}
		}
		if hit.is_none() {
			self.settle(s)?;
		}
		Ok((pos, hit))
	}

	/// Forget scripted decisions that lie before the current position.
	fn drop_stale(&mut self, s: &mut State) -> X<()> {
		while let Some(&(p, _)) = self.script.last() {
			if p >> 12 >= s.steps {
				break;
			}
			self.script.pop();
		}
		self.settle(s)
	}

	/// After a replayed prefix: obtain a model for the state.
	fn settle(&mut self, s: &mut State) -> X<()> {
		if self.need_model && self.script.is_empty() {
			self.need_model = false;
			s.model = Rc::new(vec![]);
			s.mid = self.newmid();
			match self.feasible_all(s, &[])? {
				Some((m, mid)) => {
					s.model = m;
					s.mid = mid;
				},
				None => return Err(End::Error("replayed prefix is infeasible".into())),
			}
		}
		Ok(())
	}

	fn push_state(&mut self, n: State) {
		self.st.forks += 1;
		self.stack.push(n);
		if self.stack.len() > 1 && self.sh.flags.idle.load(Ordering::Relaxed) > 0 && self.sh.flags.queued.load(Ordering::Relaxed) == 0 {
			let d = self.stack.remove(0);
			self.sh.flags.queued.fetch_add(1, Ordering::SeqCst);
			let _ = send(&self.sh.chan, b'D', &job_bytes(&d.decisions));
		}
	}

	/// Decide a Boolean; forks if both outcomes are feasible. The sibling restarts the current instruction.
	fn decide(&mut self, s: &mut State, c: Lit) -> X<bool> {
		let c = self.simp_deep(s, c);
		let (pos, hit) = self.at_decision(s)?;
		if c <= 1 {
			return Ok(c == T);
		}
		self.st.branches += 1;
		if let Some(d) = hit {
			s.decisions.push((pos, d));
			let v = d != 0;
			self.constrain(s, if v { c } else { not(c) });
			self.settle(s)?;
			return Ok(v);
		}
		if self.replaying() {
			// the donor saw a constant here: exactly one outcome is possible
			let v = self.feasible(s, c)?.is_some();
			s.decisions.push((pos, v as u128));
			self.constrain(s, if v { c } else { not(c) });
			return Ok(v);
		}
		let v = self.model_true(s, c);
		let (mine, other) = if v { (c, not(c)) } else { (not(c), c) };
		if let Some((m, mid)) = self.feasible(s, other)? {
			let mut n = s.clone();
			n.model = m;
			n.mid = mid;
			n.steps -= 1;
			n.decisions.push((pos, !v as u128));
			self.constrain(&mut n, other);
			self.push_state(n);
		}
		s.decisions.push((pos, v as u128));
		self.constrain(s, mine);
		Ok(v)
	}

	/// A word that is one symbolic bit, about to be added to a constant, is a step of a counter: decide it now,
	/// or sizes and positions derived from the count become sums that every later access has to reason about.
	fn flags(&mut self, s: &mut State, x: Val, y: Val) -> X<(Val, Val)> {
		let bit = |v: &Val| match v {
			Val::S(b) if b.len() == 64 && b[0] > 1 && b[1..].iter().all(|x| *x == F) => Some(b[0]),
			_ => None,
		};
		Ok(match (bit(&x), bit(&y)) {
			(Some(b), _) if matches!(y, Val::C(_)) => (Val::C(self.decide(s, b)? as u128), y),
			(_, Some(b)) if matches!(x, Val::C(_)) => (x, Val::C(self.decide(s, b)? as u128)),
			_ => (x, y),
		})
	}

	fn simp_bits(&mut self, s: &State, b: &[Lit]) -> Vec<Lit> {
		b.iter().map(|x| self.simp_deep(s, *x)).collect()
	}

	/// Force a concrete value, forking over all feasible ones.
	fn concretize(&mut self, s: &mut State, v: &Val) -> X<u128> {
		let b = match v {
			Val::C(x) => {
				s.sub += 1;
				return Ok(*x);
			},
			Val::S(b) => b.clone(),
			Val::A(_) => return Err(End::Error("concretize aggregate".into())),
		};
		let (pos, hit) = self.at_decision(s)?;
		let w = b.len() as u32;
		let b = self.simp_bits(s, &b);
		if let Val::C(x) = mk(&b) {
			return Ok(x);
		}
		self.st.branches += 1;
		if let Some(d) = hit {
			s.decisions.push((pos, d));
			let e = self.l.bv_eq(&b, &Lits::cbits(d, w));
			self.constrain_eq(s, &b, d, e);
			self.settle(s)?;
			return Ok(d);
		}
		if self.replaying() {
			// the donor saw a constant here: exactly one value is possible
			let Some((m, mid)) = self.feasible_all(s, &[])? else {
				return Err(End::Error("replayed prefix is infeasible".into()));
			};
			let d = self.eval_val(&mk(&b), &m, mid);
			s.decisions.push((pos, d));
			let e = self.l.bv_eq(&b, &Lits::cbits(d, w));
			self.constrain_eq(s, &b, d, e);
			return Ok(d);
		}
		let model = s.model.clone();
		let mine = self.eval_val(&mk(&b), &model, s.mid);
		let mut found: Vec<(u128, Option<(Rc<Vec<u8>>, u64)>)> = vec![(mine, None)];
		let mut excl = vec![not(self.l.bv_eq(&b, &Lits::cbits(mine, w)))];
		loop {
			match self.feasible_all(s, &excl)? {
				None => break,
				Some((m, mid)) => {
					let x = self.eval_val(&mk(&b), &m, mid);
					excl.push(not(self.l.bv_eq(&b, &Lits::cbits(x, w))));
					found.push((x, Some((m, mid))));
					if found.len() > self.sh.cfg.max_fanout {
						return Err(End::Error(format!("more than {} feasible values for a {}-bit address/size", self.sh.cfg.max_fanout, w)));
					}
				},
			}
		}
		for (x, m) in found.into_iter().skip(1) {
			let (m, mid) = m.unwrap();
			let mut n = s.clone();
			n.model = m;
			n.mid = mid;
			n.steps -= 1;
			n.decisions.push((pos, x));
			let e = self.l.bv_eq(&b, &Lits::cbits(x, w));
			self.constrain_eq(&mut n, &b, x, e);
			self.push_state(n);
		}
		s.decisions.push((pos, mine));
		let e = self.l.bv_eq(&b, &Lits::cbits(mine, w));
		self.constrain_eq(s, &b, mine, e);
		Ok(mine)
	}

	fn constrain_eq(&mut self, s: &mut State, b: &[Lit], v: u128, e: Lit) {
		self.constrain(s, e);
		for (i, x) in b.iter().enumerate() {
			if *x > 1 {
				let l = if (v >> i) & 1 == 1 { *x } else { not(*x) };
				self.add_known(s, l);
			}
		}
	}

	// ------------------------------------------------------------ memory

	fn byte_bits(&self, code: u32) -> [Lit; 8] {
		if code < 256 {
			let mut o = [F; 8];
			for j in 0..8 {
				o[j] = (code >> j) & 1;
			}
			o
		} else {
			self.bytes[(code - 257) as usize]
		}
	}
	fn intern_byte(&mut self, b: [Lit; 8]) -> u32 {
		if b.iter().all(|x| *x <= 1) {
			return (0..8).map(|j| b[j] << j).sum();
		}
		if let Some(i) = self.bidx.get(&b) {
			return *i;
		}
		let i = self.bytes.len() as u32 + 257;
		self.bytes.push(b);
		self.bidx.insert(b, i);
		i
	}

	fn locate(&self, s: &State, addr: u64, n: u64) -> X<(u32, usize)> {
		let hi = (addr >> 32) as u32;
		let ub = |m: String| Err(End::Violation("ub".into(), m));
		if hi == 0 {
			return ub(format!("access of {} bytes through invalid pointer {:#x}", n, addr));
		}
		let id = hi - 1;
		let off = (addr & 0xffff_ffff) as i64 - OBJ_OFF as i64;
		match s.mem.get(id as usize) {
			Some(Some(o)) => {
				if !o.alive {
					return ub(format!("access to dead object {} at offset {}", id, off));
				}
				if off < 0 || off as u64 + n > o.data.len() as u64 {
					return ub(format!("out-of-bounds access: offset {} size {} in object of {} bytes", off, n, o.data.len()));
				}
				Ok((id, off as usize))
			},
			_ => ub(format!("access of {} bytes through invalid pointer {:#x}", n, addr)),
		}
	}

	fn new_obj(&mut self, s: &mut State, size: u64, heap: bool) -> u32 {
		let o = Rc::new(Obj { data: vec![UNINIT; size as usize], ro: false, alive: true, heap });
		if !heap {
			if let Some(i) = s.free.pop() {
				s.mem[i as usize] = Some(o);
				return i;
			}
		}
		s.mem.push(Some(o));
		s.mem.len() as u32 - 1
	}

	fn uninit_var(&mut self, s: &mut State) -> [Lit; 8] {
		let b = s.nvars;
		s.nvars += 8;
		let mut o = [F; 8];
		for j in 0..8 {
			o[j] = self.l.var(b + j as u32);
		}
		o
	}

	fn load_scalar(&mut self, s: &mut State, addr: u64, w: u32) -> X<Val> {
		let n = (w as usize + 7) / 8;
		let (id, off) = self.locate(s, addr, n as u64)?;
		let o = s.mem[id as usize].as_ref().unwrap();
		let d = &o.data[off..off + n];
		if d.iter().all(|c| *c < 256) {
			let mut x = 0u128;
			for (i, c) in d.iter().enumerate() {
				x |= (*c as u128) << (8 * i);
			}
			return Ok(Val::C(mask(x, w)));
		}
		let codes: Vec<u32> = d.to_vec();
		let mut bits = Vec::with_capacity(8 * n);
		for (i, c) in codes.iter().enumerate() {
			if *c == UNINIT {
				let b = self.uninit_var(s);
				bits.extend_from_slice(&b);
				let code = self.intern_byte(b);
				Rc::make_mut(s.mem[id as usize].as_mut().unwrap()).data[off + i] = code;
			} else {
				let b = self.byte_bits(*c);
				for x in b {
					bits.push(if x <= 1 { x } else { Self::known_lit(s, x) });
				}
			}
		}
		bits.truncate(w as usize);
		Ok(mk(&bits))
	}

	fn load(&mut self, s: &mut State, addr: u64, ty: &Ty) -> X<Val> {
		match ty {
			Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.load_scalar(s, addr, ty.bits()),
			_ => {
				let mut v = vec![];
				for i in 0..ty.nelem() {
					v.push(self.load(s, addr + ty.field_offset(i), ty.elem(i))?);
				}
				Ok(Val::A(Rc::new(v)))
			},
		}
	}

	fn store(&mut self, s: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
		match ty {
			Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
				let w = ty.bits();
				let n = (w as usize + 7) / 8;
				let (id, off) = self.locate(s, addr, n as u64)?;
				let mut codes = vec![0u32; n];
				match v {
					Val::C(x) => {
						for i in 0..n {
							codes[i] = ((x >> (8 * i)) & 0xff) as u32;
						}
					},
					Val::S(b) => {
						for i in 0..n {
							let mut a = [F; 8];
							for j in 0..8 {
								if 8 * i + j < b.len() {
									a[j] = b[8 * i + j];
								}
							}
							codes[i] = self.intern_byte(a);
						}
					},
					Val::A(_) => return Err(End::Error("store aggregate as scalar".into())),
				}
				let o = s.mem[id as usize].as_mut().unwrap();
				if o.ro {
					return Err(End::Violation("ub".into(), "store to constant memory".into()));
				}
				Rc::make_mut(o).data[off..off + n].copy_from_slice(&codes);
				Ok(())
			},
			_ => {
				let Val::A(vs) = v else { return Err(End::Error("store scalar as aggregate".into())) };
				for i in 0..ty.nelem() {
					self.store(s, addr + ty.field_offset(i), ty.elem(i), &vs[i].clone())?;
				}
				Ok(())
			},
		}
	}

	/// Load through a symbolic pointer from a small constant table without forking.
	fn try_table(&mut self, s: &mut State, p: &[Lit], w: u32) -> X<Option<Val>> {
		let n = (w as usize + 7) / 8;
		let mut p = p.to_vec();
		if p[32..].iter().any(|x| *x > 1) {
			return Ok(None);
		}
		if p.iter().filter(|x| **x > 1).count() > 9 {
			// within a small constant table, the upper bits of the address are constant
			let id = (32..64).map(|i| (p[i] as u64) << (i - 32)).sum::<u64>();
			let Some(Some(o)) = (id as usize).checked_sub(1).and_then(|i| s.mem.get(i)) else { return Ok(None) };
			if !o.alive || !o.ro || o.data.is_empty() || o.data.len() > 512 {
				return Ok(None);
			}
			let low = (usize::BITS - (o.data.len() - 1).leading_zeros()) as usize;
			let mut within = T;
			for i in low..32 {
				let x = if OBJ_OFF as u64 >> i & 1 == 1 { p[i] } else { not(p[i]) };
				within = self.l.and(within, x);
			}
			if !self.decide(s, within)? {
				return Ok(None);
			}
			for i in low..32 {
				p[i] = (OBJ_OFF as u64 >> i & 1) as Lit;
			}
		}
		let sb: Vec<usize> = (0..32).filter(|i| p[*i] > 1).collect();
		if sb.is_empty() || sb.len() > 9 {
			return Ok(None);
		}
		// distinct literals only
		let mut base = 0u64;
		for i in 0..64 {
			if p[i] == T {
				base |= 1 << i;
			}
		}
		let k = sb.len();
		let id = (base >> 32) as u32;
		if id == 0 {
			return Ok(None);
		}
		let Some(Some(o)) = s.mem.get(id as usize - 1) else { return Ok(None) };
		if !o.alive {
			return Ok(None);
		}
		let o = o.clone();
		let mut vals: Vec<Option<Vec<Lit>>> = vec![None; 1 << k];
		let mut oob = vec![];
		for c in 0..(1usize << k) {
			let mut a = base;
			for (j, i) in sb.iter().enumerate() {
				if (c >> j) & 1 == 1 {
					a |= 1 << i;
				}
			}
			let off = (a & 0xffff_ffff) as i64 - OBJ_OFF as i64;
			if off < 0 || off as usize + n > o.data.len() {
				oob.push(c);
				continue;
			}
			let mut bits = vec![];
			for i in 0..n {
				let code = o.data[off as usize + i];
				if code == UNINIT {
					return Ok(None);
				}
				bits.extend_from_slice(&self.byte_bits(code));
			}
			bits.truncate(w as usize);
			vals[c] = Some(bits);
		}
		if !oob.is_empty() {
			// A constant table that the address bits could overrun: split off the addresses outside of it,
			// so that those inside need no case distinction. Other objects are left to concretisation.
			if !o.ro || oob.len() == vals.len() {
				return Ok(None);
			}
			let mut cur = vec![T; 1 << k];
			for c in &oob {
				cur[*c] = F;
			}
			for j in 0..k {
				let c = p[sb[j]];
				cur = (0..cur.len() / 2).map(|i| self.l.ite(c, cur[2 * i + 1], cur[2 * i])).collect();
			}
			if !self.decide(s, cur[0])? {
				return Ok(None);
			}
			let any = vals.iter().flatten().next().unwrap().clone();
			for c in oob {
				vals[c] = Some(any.clone());
			}
		}
		let vals: Vec<Vec<Lit>> = vals.into_iter().map(|x| x.unwrap()).collect();
		// affine?
		let consts = vals.iter().all(|v| v.iter().all(|x| *x <= 1));
		if consts && k >= 2 {
			let mut affine = true;
			'o: for c in 0..vals.len() {
				for b in 0..w as usize {
					let mut x = vals[0][b];
					for j in 0..k {
						if (c >> j) & 1 == 1 {
							x ^= vals[0][b] ^ vals[1 << j][b];
						}
					}
					if x != vals[c][b] {
						affine = false;
						break 'o;
					}
				}
			}
			if affine {
				let mut out = vals[0].clone();
				for b in 0..w as usize {
					for j in 0..k {
						if vals[0][b] != vals[1 << j][b] {
							out[b] = self.l.xor(out[b], p[sb[j]]);
						}
					}
				}
				return Ok(Some(mk(&out)));
			}
		}
		let mut cur = vals;
		for j in 0..k {
			let c = p[sb[j]];
			let mut nx = Vec::with_capacity(cur.len() / 2);
			for i in 0..cur.len() / 2 {
				let v = self.l.bv_ite(c, &cur[2 * i + 1].clone(), &cur[2 * i].clone());
				nx.push(v);
			}
			cur = nx;
		}
		Ok(Some(mk(&cur[0])))
	}

	/// The object, the symbolic address bits and the offset for each of their values, if all are inside of the object.
	fn table(&self, s: &State, p: &[Lit], w: u32) -> Option<(usize, Vec<usize>, Vec<i64>)> {
		let n = (w as usize + 7) / 8;
		let sb: Vec<usize> = (0..32).filter(|i| p[*i] > 1).collect();
		if p[32..].iter().any(|x| *x > 1) || !(7..=8).contains(&sb.len()) {
			return None;
		}
		let base = (0..64).map(|i| ((p[i] == T) as u64) << i).sum::<u64>();
		let id = (base >> 32) as usize;
		let o = s.mem.get(id.checked_sub(1)?)?.as_ref()?;
		if !o.alive || o.ro {
			return None;
		}
		let offs: Vec<i64> = (0..1usize << sb.len())
			.map(|c| {
				let a = sb.iter().enumerate().fold(base, |a, (j, i)| a | ((c as u64 >> j) & 1) << i);
				(a & 0xffff_ffff) as i64 - OBJ_OFF as i64
			})
			.collect();
		if offs.iter().any(|x| *x < 0 || *x as usize + n > o.data.len() || o.data[*x as usize..*x as usize + n].contains(&UNINIT)) {
			return None;
		}
		Some((id, sb, offs))
	}

	/// Store to an array that is indexed with a symbolic byte without forking: every element is kept or replaced,
	/// depending on the address. Only when there are many possible addresses.
	fn store_table(&mut self, s: &mut State, p: &[Lit], w: u32, v: &Val) -> X<bool> {
		const WHOLE: u128 = u128::MAX;
		let (pos, hit) = self.at_decision(s)?;
		let p = self.simp_bits(s, p);
		let Some((id, sb, offs)) = self.table(s, &p, w) else {
			if hit == Some(WHOLE) {
				return Err(End::Error("replayed store differs".into()));
			}
			return Ok(false);
		};
		match hit {
			Some(WHOLE) => {},
			None if !self.replaying() => {},
			// the donor did not come this way
			_ => return Ok(false),
		}
		s.decisions.push((pos, WHOLE));
		let n = (w as usize + 7) / 8;
		let mut here = vec![T];
		for i in &sb {
			let c = p[*i];
			let mut next: Vec<Lit> = here.iter().map(|h| self.l.and(*h, not(c))).collect();
			next.extend(here.iter().map(|h| self.l.and(*h, c)).collect::<Vec<_>>());
			here = next;
		}
		let mut new = bits(v, w);
		new.resize(8 * n, F);
		for (off, h) in offs.into_iter().zip(here) {
			for i in 0..n {
				let at = off as usize + i;
				let old = self.byte_bits(s.mem[id - 1].as_ref().unwrap().data[at]);
				let mut b = [F; 8];
				for j in 0..8 {
					b[j] = self.l.ite(h, new[8 * i + j], old[j]);
				}
				let code = self.intern_byte(b);
				Rc::make_mut(s.mem[id - 1].as_mut().unwrap()).data[at] = code;
			}
		}
		Ok(true)
	}

	// ------------------------------------------------------------ operands

	fn op(&self, s: &State, o: &Opnd) -> Val {
		match o {
			Opnd::Reg(r) => s.frames.last().unwrap().regs[*r as usize].clone(),
			Opnd::Imm(x) => Val::C(*x),
			Opnd::AggC(c) => cval(c),
			Opnd::Const(_) => panic!("unlinked constant"),
		}
	}
	fn opc(&mut self, s: &mut State, o: &Opnd) -> X<u128> {
		let v = self.op(s, o);
		self.concretize(s, &v)
	}
	fn set(&self, s: &mut State, d: u32, v: Val) {
		s.frames.last_mut().unwrap().regs[d as usize] = v;
	}

	fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> X<Val> {
		if let (Val::C(x), Val::C(y)) = (a, b) {
			let (x, y) = (*x, *y);
			let r = match op {
				Op::Add => x.wrapping_add(y),
				Op::Sub => x.wrapping_sub(y),
				Op::Mul => x.wrapping_mul(y),
				Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => {
					return Err(End::Violation("ub".into(), "division by zero".into()));
				},
				Op::UDiv => x / y,
				Op::URem => x % y,
				Op::SDiv => sext128(x, w).wrapping_div(sext128(y, w)) as u128,
				Op::SRem => sext128(x, w).wrapping_rem(sext128(y, w)) as u128,
				Op::And => x & y,
				Op::Or => x | y,
				Op::Xor => x ^ y,
				Op::Shl => {
					if y >= w as u128 {
						0
					} else {
						x << y
					}
				},
				Op::LShr => {
					if y >= w as u128 {
						0
					} else {
						x >> y
					}
				},
				Op::AShr => {
					if y >= w as u128 {
						0
					} else {
						(sext128(x, w) >> y) as u128
					}
				},
			};
			return Ok(Val::C(mask(r, w)));
		}
		if let (Val::A(x), Val::A(y)) = (a, b) {
			let n = x.len();
			let mut v = vec![];
			for i in 0..n {
				v.push(self.bin(op, w, &x[i], &y[i])?);
			}
			return Ok(Val::A(Rc::new(v)));
		}
		let x = bits(a, w);
		let y = bits(b, w);
		let l = &mut self.l;
		let n = w as usize;
		let r = match op {
			Op::Add => l.bv_add(&x, &y, F).0,
			Op::Sub => l.bv_sub(&x, &y).0,
			Op::Mul => l.bv_mul(&x, &y),
			Op::And => (0..n).map(|i| l.and(x[i], y[i])).collect(),
			Op::Or => (0..n).map(|i| l.or(x[i], y[i])).collect(),
			Op::Xor => (0..n).map(|i| l.xor(x[i], y[i])).collect(),
			Op::Shl => l.bv_shl(&x, &y, F, true),
			Op::LShr => l.bv_shl(&x, &y, F, false),
			Op::AShr => l.bv_shl(&x, &y, x[n - 1], false),
			Op::UDiv | Op::URem => {
				if let Val::C(c) = b {
					if c.is_power_of_two() {
						let k = c.trailing_zeros() as usize;
						let mut o = vec![F; n];
						if op == Op::UDiv {
							for i in 0..n - k {
								o[i] = x[i + k];
							}
						} else {
							o[..k].copy_from_slice(&x[..k]);
						}
						return Ok(mk(&o));
					}
				}
				let (q, r) = l.bv_udivrem(&x, &y);
				if op == Op::UDiv {
					q
				} else {
					r
				}
			},
			Op::SDiv | Op::SRem => {
				let (sx, sy) = (x[n - 1], y[n - 1]);
				let zero = vec![F; n];
				let nx = l.bv_sub(&zero, &x).0;
				let ny = l.bv_sub(&zero, &y).0;
				let ax: Vec<Lit> = (0..n).map(|i| l.ite(sx, nx[i], x[i])).collect();
				let ay: Vec<Lit> = (0..n).map(|i| l.ite(sy, ny[i], y[i])).collect();
				let (q, r) = l.bv_udivrem(&ax, &ay);
				let (v, neg) = if op == Op::SDiv { (q, l.xor(sx, sy)) } else { (r, sx) };
				let nv = l.bv_sub(&zero, &v).0;
				(0..n).map(|i| l.ite(neg, nv[i], v[i])).collect()
			},
		};
		Ok(mk(&r))
	}

	fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
		if let (Val::C(x), Val::C(y)) = (a, b) {
			let (sx, sy) = (sext128(*x, w), sext128(*y, w));
			let r = match p {
				Pred::Eq => x == y,
				Pred::Ne => x != y,
				Pred::Ugt => x > y,
				Pred::Uge => x >= y,
				Pred::Ult => x < y,
				Pred::Ule => x <= y,
				Pred::Sgt => sx > sy,
				Pred::Sge => sx >= sy,
				Pred::Slt => sx < sy,
				Pred::Sle => sx <= sy,
			};
			return Val::C(r as u128);
		}
		let x = bits(a, w);
		let y = bits(b, w);
		let l = &mut self.l;
		let r = match p {
			Pred::Eq => l.bv_eq(&x, &y),
			Pred::Ne => not(l.bv_eq(&x, &y)),
			Pred::Ult => l.bv_ult(&x, &y),
			Pred::Ugt => l.bv_ult(&y, &x),
			Pred::Ule => not(l.bv_ult(&y, &x)),
			Pred::Uge => not(l.bv_ult(&x, &y)),
			Pred::Slt => l.bv_slt(&x, &y),
			Pred::Sgt => l.bv_slt(&y, &x),
			Pred::Sle => not(l.bv_slt(&y, &x)),
			Pred::Sge => not(l.bv_slt(&x, &y)),
		};
		mk(&[r])
	}

	fn select(&mut self, c: Lit, a: &Val, b: &Val, ty: &Ty) -> Val {
		if c == T {
			return a.clone();
		}
		if c == F {
			return b.clone();
		}
		match (a, b) {
			(Val::A(x), Val::A(y)) => {
				let v = (0..x.len()).map(|i| self.select(c, &x[i], &y[i], ty.elem(i))).collect();
				Val::A(Rc::new(v))
			},
			_ => {
				let w = ty.bits();
				let x = bits(a, w);
				let y = bits(b, w);
				mk(&self.l.bv_ite(c, &x, &y))
			},
		}
	}

	// ------------------------------------------------------------ run

	fn goto(&mut self, s: &mut State, b: u32) {
		let prog = self.prog.clone();
		let fi;
		let cur;
		{
			let f = s.frames.last_mut().unwrap();
			f.prev = f.block;
			f.block = b;
			f.ip = 0;
			fi = f.func;
			cur = f.prev;
		}
		self.seen[fi as usize][b as usize] = true;
		let blk = &prog.funcs[fi as usize].blocks[b as usize];
		if !blk.phis.is_empty() {
			let mut vals = Vec::with_capacity(blk.phis.len());
			for (_, _, v) in &blk.phis {
				let o = v.iter().find(|(_, p)| *p == cur).expect("phi predecessor");
				vals.push(self.op(s, &o.0));
			}
			let f = s.frames.last_mut().unwrap();
			for ((d, _, _), v) in blk.phis.iter().zip(vals) {
				f.regs[*d as usize] = v;
			}
		}
	}

	fn panic_msg(&mut self, s: &State, name: &str, args: &[Val]) -> String {
		let mut m = name.to_string();
		for a in args.iter().rev() {
			if let Val::C(p) = a {
				if let Ok((id, off)) = self.locate(s, *p as u64, 24) {
					let o = s.mem[id as usize].as_ref().unwrap();
					let rd = |o: &Obj, k: usize, n: usize| -> Option<u64> {
						let mut x = 0u64;
						for i in 0..n {
							let c = *o.data.get(k + i)?;
							if c >= 256 {
								return None;
							}
							x |= (c as u64) << (8 * i);
						}
						Some(x)
					};
					if let (Some(fp), Some(len), Some(line)) = (rd(o, off, 8), rd(o, off + 8, 8), rd(o, off + 16, 4)) {
						if len > 3 && len < 300 {
							if let Ok((fid, fo)) = self.locate(s, fp, len) {
								let fobj = s.mem[fid as usize].as_ref().unwrap();
								let t: String = fobj.data[fo..fo + len as usize].iter().map(|c| (*c as u8) as char).collect();
								if t.ends_with(".rs") {
									m = format!("{} at {}:{}", m, t, line);
									break;
								}
							}
						}
					}
				}
			}
		}
		m
	}

	fn enter(&mut self, s: &mut State, target: u32, vals: Vec<Val>, dst: Option<u32>, next: Option<u32>, kind: FrameKind) {
		let prog = self.prog.clone();
		let f = &prog.funcs[target as usize];
		let mut regs = vec![Val::C(0); f.nregs as usize];
		for ((_, r), v) in f.params.iter().zip(vals) {
			regs[*r as usize] = v;
		}
		self.seen[target as usize][0] = true;
		s.frames.push(Frame { func: target, block: 0, ip: 0, prev: 0, regs, allocas: vec![], dst, next, kind });
	}

	/// A panic: end the frames up to the innermost `symx_try`, if there is one.
	fn unwind(&mut self, s: &mut State) -> bool {
		let Some(k) = s.frames.iter().rposition(|f| f.kind != FrameKind::Call) else { return false };
		if s.frames[k].kind != FrameKind::Try {
			return false;
		}
		while s.frames.len() > k {
			let f = s.frames.pop().unwrap();
			for id in f.allocas {
				s.mem[id as usize] = None;
				s.free.push(id);
			}
			if s.frames.len() == k {
				if let Some(d) = f.dst {
					self.set(s, d, Val::C(1));
				}
				match f.next {
					Some(n) => self.goto(s, n),
					None => s.frames.last_mut().unwrap().ip += 1,
				}
			}
		}
		true
	}

	/// Before an access to static memory: fork, and run the interrupt handler in one of the two.
	fn interrupt(&mut self, s: &mut State, inst: &Inst) -> X<bool> {
		let ptr = match inst {
			Inst::Load { ptr, .. } | Inst::Store { ptr, .. } | Inst::AtomicRmw { ptr, .. } | Inst::CmpXchg { ptr, .. } => vec![self.op(s, ptr)],
			Inst::Call { callee: Callee::Intr(Intr::Memcpy), args, .. } => vec![self.op(s, &args[0].1), self.op(s, &args[1].1)],
			Inst::Call { callee: Callee::Intr(Intr::Memset), args, .. } => vec![self.op(s, &args[0].1)],
			_ => return Ok(false),
		};
		let n = self.prog.globals.len() as u64;
		let shared = ptr.iter().any(|p| match p {
			Val::C(a) => {
				let id = (*a as u64 >> 32).wrapping_sub(1);
				id < n && !self.prog.globals[id as usize].3
			},
			_ => true,
		});
		if !shared || s.irq_step == s.steps {
			return Ok(false);
		}
		s.irq_step = s.steps;
		let (pos, hit) = self.at_decision(s)?;
		let take = match hit {
			Some(v) => v != 0,
			None if self.replaying() => return Err(End::Error("replay lost an interrupt".into())),
			None => {
				let mut n = s.clone();
				n.decisions.push((pos, 1));
				let f = n.irq.take().unwrap();
				self.enter(&mut n, f, vec![], None, None, FrameKind::Interrupt);
				self.push_state(n);
				false
			},
		};
		s.decisions.push((pos, take as u128));
		if take {
			let f = s.irq.take().unwrap();
			self.enter(s, f, vec![], None, None, FrameKind::Interrupt);
		}
		Ok(take)
	}

	fn run(&mut self, s: &mut State) -> X<()> {
		let prog = self.prog.clone();
		if s.frames.len() == 1 && s.frames[0].ip == 0 && s.frames[0].block == 0 {
			self.seen[s.frames[0].func as usize][0] = true;
			if s.mid == 0 {
				s.mid = self.newmid();
			}
		}
		loop {
			s.steps += 1;
			s.sub = 0;
			if s.steps > self.sh.cfg.max_steps {
				return Err(End::Violation("hang".into(), format!("no end after {} instructions", self.sh.cfg.max_steps)));
			}
			if s.steps & 0xffff == 0 && (self.sh.flags.stop.load(Ordering::Relaxed) || std::time::Instant::now() > self.sh.cfg.deadline) {
				if !self.sh.flags.stop.load(Ordering::Relaxed) {
					self.sh.flags.timeout.store(true, Ordering::SeqCst);
					self.sh.flags.stop.store(true, Ordering::SeqCst);
				}
				return Err(End::Infeasible);
			}
			let (fi, bi, ip) = {
				let f = s.frames.last().unwrap();
				(f.func, f.block, f.ip)
			};
			let inst = &prog.funcs[fi as usize].blocks[bi as usize].insts[ip as usize];
			if s.irq.is_some() && self.interrupt(s, inst)? {
				continue;
			}
			match inst {
				Inst::Alloca { dst, size, count } => {
					let n = self.opc(s, count)? as u64;
					let id = self.new_obj(s, size * n, false);
					s.frames.last_mut().unwrap().allocas.push(id);
					self.set(s, *dst, Val::C(obj_base(id) as u128));
				},
				Inst::Load { dst, ty, ptr } => {
					let pv = self.op(s, ptr);
					let v = match &pv {
						Val::C(a) => self.load(s, *a as u64, ty)?,
						Val::S(b) => {
							let b = self.simp_bits(s, b);
							let tv = if ty.is_scalar() { self.try_table(s, &b, ty.bits())? } else { None };
							match tv {
								Some(v) => v,
								None => {
									let a = self.concretize(s, &mk(&b))?;
									self.load(s, a as u64, ty)?
								},
							}
						},
						_ => return Err(End::Error("load ptr".into())),
					};
					self.set(s, *dst, v);
				},
				Inst::Store { ty, val, ptr } => {
					if let Val::S(b) = self.op(s, ptr) {
						let v = self.op(s, val);
						if ty.is_scalar() && self.store_table(s, &b, ty.bits(), &v)? {
							s.frames.last_mut().unwrap().ip += 1;
							continue;
						}
					}
					let a = self.opc(s, ptr)? as u64;
					let v = self.op(s, val);
					self.store(s, a, ty, &v)?;
				},
				Inst::Gep { dst, base, off, idx } => {
					let b = self.op(s, base);
					let mut acc = self.bin(Op::Add, 64, &b, &Val::C(*off as u64 as u128))?;
					for (o, w, sc) in idx {
						let v = self.op(s, o);
						let v64 = cast(CastK::Sext, &v, *w, 64);
						let m = self.bin(Op::Mul, 64, &v64, &Val::C(*sc as u64 as u128))?;
						acc = self.bin(Op::Add, 64, &acc, &m)?;
					}
					self.set(s, *dst, acc);
				},
				Inst::Bin { dst, op, ty, a, b } => {
					let x = self.op(s, a);
					let y = self.op(s, b);
					let w = match ty {
						Ty::Vector(_, e) => e.bits(),
						t => t.bits(),
					};
					let (x, y) = if matches!(op, Op::Add) && w == 64 { self.flags(s, x, y)? } else { (x, y) };
					let v = self.bin(*op, w, &x, &y)?;
					self.set(s, *dst, v);
				},
				Inst::Icmp { dst, p, ty, a, b } => {
					let x = self.op(s, a);
					let y = self.op(s, b);
					let v = match (&x, &y) {
						(Val::A(p1), Val::A(p2)) => {
							let w = ty.elem(0).bits();
							let mut o = vec![];
							for i in 0..p1.len() {
								o.push(self.icmp(*p, w, &p1[i], &p2[i]));
							}
							Val::A(Rc::new(o))
						},
						_ => self.icmp(*p, ty.bits(), &x, &y),
					};
					self.set(s, *dst, v);
				},
				Inst::Select { dst, c, cty, ty, a, b } => {
					let cv = self.op(s, c);
					let x = self.op(s, a);
					let y = self.op(s, b);
					let v = if let Val::A(cs) = &cv {
						let (Val::A(x), Val::A(y)) = (&x, &y) else { return Err(End::Error("vector select".into())) };
						let mut o = vec![];
						for i in 0..cs.len() {
							let cl = bits(&cs[i], 1)[0];
							let cl = self.simp_deep(s, cl);
							o.push(self.select(cl, &x[i], &y[i], ty.elem(i)));
						}
						Val::A(Rc::new(o))
					} else {
						let _ = cty;
						let cl = bits(&cv, 1)[0];
						let cl = self.simp_deep(s, cl);
						self.select(cl, &x, &y, ty)
					};
					self.set(s, *dst, v);
				},
				Inst::Cast { dst, k, from, to, a } => {
					let x = self.op(s, a);
					let v = match (&x, from, to) {
						(Val::A(xs), Ty::Vector(_, f), Ty::Vector(_, t)) if *k != CastK::Bit => {
							Val::A(Rc::new(xs.iter().map(|x| cast(*k, x, f.bits(), t.bits())).collect()))
						},
						(Val::A(xs), Ty::Vector(_, f), t) if *k == CastK::Bit && t.is_scalar() => {
							let mut b = vec![];
							for x in xs.iter() {
								b.extend(bits(x, f.bits()));
							}
							mk(&b)
						},
						(x, f, Ty::Vector(n, e)) if *k == CastK::Bit && f.is_scalar() => {
							let b = bits(x, f.bits());
							let w = e.bits() as usize;
							Val::A(Rc::new((0..*n as usize).map(|i| mk(&b[i * w..(i + 1) * w])).collect()))
						},
						_ if from.is_scalar() && to.is_scalar() => cast(*k, &x, from.bits(), to.bits()),
						_ => return Err(End::Error("unsupported cast".into())),
					};
					self.set(s, *dst, v);
				},
				Inst::Extract { dst, a, path } => {
					let mut v = self.op(s, a);
					for i in path {
						v = match v {
							Val::A(x) => x[*i as usize].clone(),
							_ => return Err(End::Error("extractvalue".into())),
						};
					}
					self.set(s, *dst, v);
				},
				Inst::Insert { dst, a, v, path, .. } => {
					let mut agg = self.op(s, a);
					let x = self.op(s, v);
					insert(&mut agg, path, x);
					self.set(s, *dst, agg);
				},
				Inst::ExtractElt { dst, a, i } => {
					let idx = self.opc(s, i)? as usize;
					let v = match self.op(s, a) {
						Val::A(x) => x[idx].clone(),
						_ => return Err(End::Error("extractelement".into())),
					};
					self.set(s, *dst, v);
				},
				Inst::InsertElt { dst, a, v, i, .. } => {
					let idx = self.opc(s, i)? as u32;
					let mut agg = self.op(s, a);
					let x = self.op(s, v);
					insert(&mut agg, &[idx], x);
					self.set(s, *dst, agg);
				},
				Inst::Shuffle { dst, a, b, mask, .. } => {
					let (Val::A(x), Val::A(y)) = (self.op(s, a), self.op(s, b)) else {
						return Err(End::Error("shufflevector".into()));
					};
					let n = x.len() as i64;
					let v = mask
						.iter()
						.map(|m| {
							if *m < 0 {
								x[0].clone()
							} else if *m < n {
								x[*m as usize].clone()
							} else {
								y[(*m - n) as usize].clone()
							}
						})
						.collect();
					self.set(s, *dst, Val::A(Rc::new(v)));
				},
				Inst::Freeze { dst, a } => {
					let v = self.op(s, a);
					self.set(s, *dst, v);
				},
				Inst::AtomicRmw { dst, op, ty, ptr, val } => {
					let a = self.opc(s, ptr)? as u64;
					let old = self.load(s, a, ty)?;
					let v = self.op(s, val);
					let w = ty.bits();
					let nv = match op.as_str() {
						"xchg" => v,
						"add" => self.bin(Op::Add, w, &old, &v)?,
						"sub" => self.bin(Op::Sub, w, &old, &v)?,
						"and" => self.bin(Op::And, w, &old, &v)?,
						"or" => self.bin(Op::Or, w, &old, &v)?,
						"xor" => self.bin(Op::Xor, w, &old, &v)?,
						_ => return Err(End::Error(format!("atomicrmw {}", op))),
					};
					self.store(s, a, ty, &nv)?;
					self.set(s, *dst, old);
				},
				Inst::CmpXchg { dst, ty, ptr, cmp, new } => {
					let a = self.opc(s, ptr)? as u64;
					let old = self.load(s, a, ty)?;
					let c = self.op(s, cmp);
					let nv = self.op(s, new);
					let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
					let el = bits(&eq, 1)[0];
					let e = self.decide(s, el)?;
					if e {
						self.store(s, a, ty, &nv)?;
					}
					self.set(s, *dst, Val::A(Rc::new(vec![old, Val::C(e as u128)])));
				},
				Inst::Br(b) => {
					self.goto(s, *b);
					continue;
				},
				Inst::CondBr(c, a, b) => {
					let v = self.op(s, c);
					let x = bits(&v, 1)[0];
					let r = self.decide(s, x)?;
					self.goto(s, if r { *a } else { *b });
					continue;
				},
				Inst::Switch { ty, v, def, cases } => {
					let w = ty.bits();
					let x = self.op(s, v);
					let x = match x {
						Val::S(b) => mk(&self.simp_bits(s, &b)),
						x => x,
					};
					let t = match &x {
						Val::C(c) => cases.iter().find(|(k, _)| k == c).map(|(_, b)| *b).unwrap_or(*def),
						_ => {
							// decide case by case (each decision recorded)
							let b = bits(&x, w);
							let mut groups: Vec<(u32, Lit)> = vec![];
							for (k, t) in cases {
								let e = self.l.bv_eq(&b, &Lits::cbits(*k, w));
								if let Some(g) = groups.iter_mut().find(|(tt, _)| tt == t) {
									g.1 = self.l.or(g.1, e);
								} else {
									groups.push((*t, e));
								}
							}
							let mut res = *def;
							for (t, c) in groups {
								if t == *def {
									continue;
								}
								if self.decide(s, c)? {
									res = t;
									break;
								}
							}
							res
						},
					};
					self.goto(s, t);
					continue;
				},
				Inst::Ret(v) => {
					let rv = v.as_ref().map(|(_, o)| self.op(s, o));
					let f = s.frames.pop().unwrap();
					for id in f.allocas {
						s.mem[id as usize] = None;
						s.free.push(id);
					}
					if s.frames.is_empty() {
						return Ok(());
					}
					let rv = match f.kind {
						FrameKind::Interrupt => continue,
						FrameKind::Try => Some(Val::C(0)),
						FrameKind::Call => rv,
					};
					if let (Some(d), Some(v)) = (f.dst, rv) {
						self.set(s, d, v);
					}
					if let Some(n) = f.next {
						self.goto(s, n);
					} else {
						s.frames.last_mut().unwrap().ip += 1;
					}
					continue;
				},
				Inst::Unreachable => {
					return Err(End::Violation("ub".into(), "unreachable code reached".into()));
				},
				Inst::Unsupported(m) => return Err(End::Error(format!("unsupported instruction: {}", m))),
				Inst::Call { dst, ret, callee, args, next } => {
					let mut vals = Vec::with_capacity(args.len());
					for (_, a) in args {
						vals.push(self.op(s, a));
					}
					let target = match callee {
						Callee::Func(f) => *f,
						Callee::Ind(o) => {
							let a = self.opc(s, o)? as u64;
							let i = a.wrapping_sub(FN_BASE) / 16;
							if a < FN_BASE || i as usize >= prog.funcs.len() {
								return Err(End::Violation("ub".into(), format!("call through invalid pointer {:#x}", a)));
							}
							i as u32
						},
						Callee::Intr(Intr::STry) => {
							let a = self.concretize(s, &vals[0])? as u64;
							let i = a.wrapping_sub(FN_BASE) / 16;
							if a < FN_BASE || i as usize >= prog.funcs.len() {
								return Err(End::Error("try: no function".into()));
							}
							self.enter(s, i as u32, vals[1..].to_vec(), *dst, *next, FrameKind::Try);
							continue;
						},
						Callee::Intr(Intr::SPanic | Intr::Trap) if self.unwind(s) => continue,
						Callee::Intr(i) => {
							let r = self.intrinsic(s, *i, ret, args, &vals)?;
							if let (Some(d), Some(v)) = (dst, r) {
								self.set(s, *d, v);
							}
							if let Some(n) = next {
								self.goto(s, *n);
							} else {
								s.frames.last_mut().unwrap().ip += 1;
							}
							continue;
						},
						Callee::Name(n) => return Err(End::Error(format!("call to unknown {}", n))),
					};
					let f = &prog.funcs[target as usize];
					if f.noreturn && (f.declared || library(&f.name)) {
						let m = self.panic_msg(s, &f.name, &vals);
						if self.unwind(s) {
							continue;
						}
						if s.allow_panic {
							return Err(End::AllowedPanic);
						}
						return Err(End::Violation("panic".into(), m));
					}
					if f.declared {
						return Err(End::Error(format!("call to external function {}", f.name)));
					}
					if s.frames.len() > 200 {
						return Err(End::Error("call depth".into()));
					}
					self.enter(s, target, vals, *dst, *next, FrameKind::Call);
					continue;
				},
			}
			s.frames.last_mut().unwrap().ip += 1;
		}
	}

	fn intrinsic(&mut self, s: &mut State, i: Intr, ret: &Ty, args: &[(Ty, Opnd)], v: &[Val]) -> X<Option<Val>> {
		use Intr::*;
		let w = match ret {
			Ty::Int(w) => *w,
			Ty::Ptr => 64,
			_ => 0,
		};
		let aw = |k: usize| args[k].0.bits();
		Ok(match i {
			Nop => None,
			Memcpy => {
				let n = self.concretize(s, &v[2])? as u64;
				if n > 0 {
					let d = self.concretize(s, &v[0])? as u64;
					let src = self.concretize(s, &v[1])? as u64;
					let (sid, so) = self.locate(s, src, n)?;
					let (did, dof) = self.locate(s, d, n)?;
					let tmp: Vec<u32> = s.mem[sid as usize].as_ref().unwrap().data[so..so + n as usize].to_vec();
					let o = s.mem[did as usize].as_mut().unwrap();
					if o.ro {
						return Err(End::Violation("ub".into(), "write to constant memory".into()));
					}
					Rc::make_mut(o).data[dof..dof + n as usize].copy_from_slice(&tmp);
				}
				Some(v[0].clone())
			},
			Memset => {
				let n = self.concretize(s, &v[2])? as u64;
				if n > 0 {
					let d = self.concretize(s, &v[0])? as u64;
					let (did, dof) = self.locate(s, d, n)?;
					let b = bits(&v[1], aw(1));
					let mut a = [F; 8];
					a.copy_from_slice(&b[..8]);
					let code = self.intern_byte(a);
					let o = s.mem[did as usize].as_mut().unwrap();
					if o.ro {
						return Err(End::Violation("ub".into(), "write to constant memory".into()));
					}
					for x in &mut Rc::make_mut(o).data[dof..dof + n as usize] {
						*x = code;
					}
				}
				Some(v[0].clone())
			},
			Bcmp => {
				let n = self.concretize(s, &v[2])? as u64;
				if n == 0 {
					return Ok(Some(Val::C(0)));
				}
				let a = self.concretize(s, &v[0])? as u64;
				let b = self.concretize(s, &v[1])? as u64;
				let mut eq = T;
				let mut lt = F;
				for k in (0..n).rev() {
					let x = self.load_scalar(s, a + k, 8)?;
					let y = self.load_scalar(s, b + k, 8)?;
					let (x, y) = (bits(&x, 8), bits(&y, 8));
					let e = self.l.bv_eq(&x, &y);
					let u = self.l.bv_ult(&x, &y);
					lt = self.l.ite(e, lt, u);
					eq = self.l.and(eq, e);
				}
				let mut r = vec![lt; 32];
				r[0] = not(eq);
				Some(mk(&r))
			},
			Umin | Umax | Smin | Smax => {
				let p = if matches!(i, Umin | Umax) { Pred::Ult } else { Pred::Slt };
				let c = self.icmp(p, w, &v[0], &v[1]);
				let c = bits(&c, 1)[0];
				let c = self.simp_deep(s, c);
				let c = if matches!(i, Umin | Smin) { c } else { not(c) };
				Some(self.select(c, &v[0], &v[1], ret))
			},
			UaddSat | UsubSat => {
				let x = bits(&v[0], w);
				let y = bits(&v[1], w);
				let (r, c) = if i == UaddSat { self.l.bv_add(&x, &y, F) } else { self.l.bv_sub(&x, &y) };
				let sat = vec![if i == UaddSat { T } else { F }; w as usize];
				let r = self.l.bv_ite(c, &sat, &r);
				Some(mk(&r))
			},
			UaddO | UsubO | SaddO | SsubO => {
				let w = ret.elem(0).bits();
				let (a, b) = self.flags(s, v[0].clone(), v[1].clone())?;
				let x = bits(&a, w);
				let y = bits(&b, w);
				let add = matches!(i, UaddO | SaddO);
				let (r, c) = if add { self.l.bv_add(&x, &y, F) } else { self.l.bv_sub(&x, &y) };
				let o = if matches!(i, UaddO | UsubO) {
					c
				} else {
					let n = w as usize - 1;
					let (sx, sy, sr) = (x[n], y[n], r[n]);
					let d = self.l.xor(sx, sy);
					let same = if add { not(d) } else { d };
					let ch = self.l.xor(sx, sr);
					self.l.and(same, ch)
				};
				Some(Val::A(Rc::new(vec![mk(&r), mk(&[o])])))
			},
			UmulO => {
				let w = ret.elem(0).bits();
				if let (Val::C(a), Val::C(b)) = (&v[0], &v[1]) {
					let (r, o) = match a.checked_mul(*b) {
						Some(r) => (mask(r, w), mask(r, w) != r),
						None => (mask(a.wrapping_mul(*b), w), true),
					};
					return Ok(Some(Val::A(Rc::new(vec![Val::C(r), Val::C(o as u128)]))));
				}
				let x = cast(CastK::Zext, &v[0], w, 2 * w);
				let y = cast(CastK::Zext, &v[1], w, 2 * w);
				let xb = bits(&x, 2 * w);
				let yb = bits(&y, 2 * w);
				let r = self.l.bv_mul(&xb, &yb);
				let o = self.l.bv_any(&r[w as usize..]);
				Some(Val::A(Rc::new(vec![mk(&r[..w as usize]), mk(&[o])])))
			},
			SmulO => {
				let w = ret.elem(0).bits();
				if let (Val::C(a), Val::C(b)) = (&v[0], &v[1]) {
					if w <= 64 {
						let r = sext128(*a, w) * sext128(*b, w);
						let t = mask(r as u128, w);
						let o = sext128(t, w) != r;
						return Ok(Some(Val::A(Rc::new(vec![Val::C(t), Val::C(o as u128)]))));
					}
				}
				let n = w as usize;
				let ext = |v: &Val| {
					let mut b = bits(v, w);
					let s = b[n - 1];
					b.resize(2 * n, s);
					b
				};
				let (x, y) = (ext(&v[0]), ext(&v[1]));
				let r = self.l.bv_mul(&x, &y);
				let sign = r[n - 1];
				let d: Vec<Lit> = r[n..].iter().map(|b| self.l.xor(*b, sign)).collect();
				let o = self.l.bv_any(&d);
				Some(Val::A(Rc::new(vec![mk(&r[..n]), mk(&[o])])))
			},
			SaddSat | SsubSat => {
				let x = bits(&v[0], w);
				let y = bits(&v[1], w);
				let n = w as usize;
				let add = matches!(i, SaddSat);
				let r = if add { self.l.bv_add(&x, &y, F).0 } else { self.l.bv_sub(&x, &y).0 };
				let (sx, sy, sr) = (x[n - 1], y[n - 1], r[n - 1]);
				let d = self.l.xor(sx, sy);
				let same = if add { not(d) } else { d };
				let ch = self.l.xor(sx, sr);
				let o = self.l.and(same, ch);
				// the bound on the side of x
				let b: Vec<Lit> = (0..n).map(|k| if k == n - 1 { self.l.ite(o, sx, r[k]) } else { self.l.ite(o, not(sx), r[k]) }).collect();
				Some(mk(&b))
			},
			Ctpop | Ctlz | Cttz => {
				let b = bits(&v[0], w);
				if let Val::C(x) = &v[0] {
					let r = match i {
						Ctpop => x.count_ones(),
						Ctlz => {
							if *x == 0 {
								w
							} else {
								w - (128 - x.leading_zeros())
							}
						},
						_ => {
							if *x == 0 {
								w
							} else {
								x.trailing_zeros()
							}
						},
					};
					return Ok(Some(Val::C(r as u128)));
				}
				let mut acc = Lits::cbits(if i == Ctpop { 0 } else { w as u128 }, w);
				for k in 0..w as usize {
					match i {
						Ctpop => {
							let mut one = vec![F; w as usize];
							one[0] = b[k];
							acc = self.l.bv_add(&acc, &one, F).0;
						},
						Ctlz => {
							let c = Lits::cbits((w as usize - 1 - k) as u128, w);
							acc = self.l.bv_ite(b[k], &c, &acc);
						},
						_ => {
							let kk = w as usize - 1 - k;
							let c = Lits::cbits(kk as u128, w);
							acc = self.l.bv_ite(b[kk], &c, &acc);
						},
					}
				}
				Some(mk(&acc))
			},
			Bswap => {
				let b = bits(&v[0], w);
				let n = w as usize / 8;
				let mut o = vec![];
				for k in (0..n).rev() {
					o.extend_from_slice(&b[8 * k..8 * k + 8]);
				}
				Some(mk(&o))
			},
			Bitreverse => {
				let mut b = bits(&v[0], w);
				b.reverse();
				Some(mk(&b))
			},
			Fshl | Fshr => {
				let sh = (self.concretize(s, &v[2])? % w as u128) as usize;
				let a = bits(&v[0], w);
				let b = bits(&v[1], w);
				let mut cat = b.clone();
				cat.extend_from_slice(&a);
				let st = if i == Fshl { w as usize - sh } else { sh };
				Some(mk(&cat[st..st + w as usize]))
			},
			Abs => {
				let b = bits(&v[0], w);
				let z = vec![F; w as usize];
				let (n, _) = self.l.bv_sub(&z, &b);
				let r = self.l.bv_ite(b[w as usize - 1], &n, &b);
				Some(mk(&r))
			},
			Ucmp | Scmp => {
				let p = if i == Ucmp { Pred::Ult } else { Pred::Slt };
				let lt = self.icmp(p, aw(0), &v[0], &v[1]);
				let gt = self.icmp(p, aw(0), &v[1], &v[0]);
				let lt = bits(&lt, 1)[0];
				let gt = bits(&gt, 1)[0];
				let mut r = vec![lt; w as usize];
				r[0] = self.l.or(lt, gt);
				Some(mk(&r))
			},
			Expect => Some(v[0].clone()),
			IsConstant => Some(Val::C(0)),
			Ptrmask => Some(self.bin(Op::And, 64, &v[0], &v[1])?),
			Trap => {
				if s.allow_panic {
					return Err(End::AllowedPanic);
				}
				return Err(End::Violation("panic".into(), "trap".into()));
			},
			SPanic => {
				if s.allow_panic {
					return Err(End::AllowedPanic);
				}
				return Err(End::Violation("panic".into(), "panic".into()));
			},
			SAny => {
				let b = self.fresh_input(s);
				Some(mk(&b))
			},
			SChoose => {
				let n = self.concretize(s, &v[0])?;
				let b = self.fresh_input(s);
				if n == 0 || n > 256 {
					return Err(End::Error("choose(0)".into()));
				}
				let mine;
				let (pos, hit) = self.at_decision(s)?;
				if let Some(v) = hit {
					mine = v;
				} else if self.replaying() {
					return Err(End::Error("replay lost a choice".into()));
				} else {
					for k in (1..n).rev() {
						let mut c = s.clone();
						// the sibling resumes *after* the call with the value k
						let mut m = (*c.model).clone();
						let base = *c.inputs.last().unwrap() as usize;
						if m.len() < base + 8 {
							m.resize(base + 8, 0);
						}
						for j in 0..8 {
							m[base + j] = ((k >> j) & 1) as u8;
						}
						c.model = Rc::new(m);
						c.mid = self.newmid();
						c.decisions.push((pos, k));
						let e = self.l.bv_eq(&b, &Lits::cbits(k, 8));
						self.constrain(&mut c, e);
						// set destination and advance
						let f = c.frames.last_mut().unwrap();
						let prog = self.prog.clone();
						if let Inst::Call { dst: Some(d), next, .. } = &prog.funcs[f.func as usize].blocks[f.block as usize].insts[f.ip as usize] {
							f.regs[*d as usize] = Val::C(k);
							match next {
								Some(nb) => {
									let nb = *nb;
									self.goto(&mut c, nb);
								},
								None => f.ip += 1,
							}
						}
						self.push_state(c);
					}
					mine = 0;
					let mut m = (*s.model).clone();
					let base = *s.inputs.last().unwrap() as usize;
					if m.len() < base + 8 {
						m.resize(base + 8, 0);
					}
					for j in 0..8 {
						m[base + j] = 0;
					}
					s.model = Rc::new(m);
					s.mid = self.newmid();
				}
				s.decisions.push((pos, mine));
				let e = self.l.bv_eq(&b, &Lits::cbits(mine, 8));
				self.constrain(s, e);
				self.settle(s)?;
				Some(Val::C(mine))
			},
			SAssume => {
				let c = bits(&v[0], 1)[0];
				let c = self.simp_deep(s, c);
				if c == F {
					return Err(End::Infeasible);
				}
				self.drop_stale(s)?;
				if c != T {
					if !self.replaying() && !self.model_true(s, c) {
						match self.feasible(s, c)? {
							Some((m, mid)) => {
								s.model = m;
								s.mid = mid;
							},
							None => return Err(End::Infeasible),
						}
					}
					self.constrain(s, c);
				}
				None
			},
			SAssert => {
				let id = self.concretize(s, &v[1])? as u32;
				let c = bits(&v[0], 1)[0];
				let c = self.simp_deep(s, c);
				self.drop_stale(s)?;
				if self.replaying() {
					if c != T {
						self.constrain(s, c);
					}
					return Ok(None);
				}
				let e = self.st.asserts.entry(id).or_default();
				e[0] += 1;
				if c == T {
					e[1] += 1;
				} else {
					let bad = if c == F || !self.model_true(s, c) {
						Some((s.model.clone(), s.mid))
					} else {
						self.feasible(s, not(c))?
					};
					match bad {
						None => {
							self.st.asserts.get_mut(&id).unwrap()[2] += 1;
							self.constrain(s, c);
						},
						Some((m, mid)) => {
							s.model = m;
							s.mid = mid;
							return Err(End::Violation(format!("assert {}", id), format!("assertion {} fails", id)));
						},
					}
				}
				None
			},
			SCover => {
				let id = self.concretize(s, &v[0])? as u32;
				if !s.covers.contains(&id) {
					s.covers.push(id);
				}
				None
			},
			SObs => {
				s.obs.push(v[0].clone());
				None
			},
			SParam => {
				let k = self.concretize(s, &v[0])? as usize;
				Some(Val::C(*self.sh.cfg.params.get(k).unwrap_or(&0) as u128))
			},
			SAllowPanic => {
				let c = self.concretize(s, &v[0])?;
				s.allow_panic = c & 1 == 1;
				None
			},
			SAlloc => {
				let n = self.concretize(s, &v[0])? as u64;
				if n > (1 << 24) {
					return Err(End::Error("huge allocation".into()));
				}
				let id = self.new_obj(s, n, true);
				s.live_heap += 1;
				Some(Val::C(obj_base(id) as u128))
			},
			SFree => {
				let a = self.concretize(s, &v[0])? as u64;
				let (id, off) = self.locate(s, a, 0)?;
				if off != 0 || !s.mem[id as usize].as_ref().unwrap().heap {
					return Err(End::Violation("ub".into(), "free of a pointer that is not a heap allocation".into()));
				}
				Rc::make_mut(s.mem[id as usize].as_mut().unwrap()).alive = false;
				s.live_heap -= 1;
				None
			},
			SConcrete => Some(Val::C(self.concretize(s, &v[0])?)),
			SMark => None,
			SIrq => {
				let a = self.concretize(s, &v[0])? as u64;
				s.irq = if a == 0 { None } else { Some((a.wrapping_sub(FN_BASE) / 16) as u32) };
				None
			},
			STry => unreachable!(),
		})
	}

	fn fresh_input(&mut self, s: &mut State) -> Vec<Lit> {
		let b = s.nvars;
		s.nvars += 8;
		s.inputs.push(b);
		(0..8).map(|j| self.l.var(b + j)).collect()
	}
}

pub fn cval(c: &CVal) -> Val {
	match c {
		CVal::I(x) => Val::C(*x),
		CVal::A(v) => Val::A(Rc::new(v.iter().map(cval).collect())),
	}
}

pub fn bits(v: &Val, w: u32) -> Vec<Lit> {
	match v {
		Val::C(x) => Lits::cbits(*x, w),
		Val::S(b) => b.to_vec(),
		Val::A(_) => panic!("bits of aggregate"),
	}
}

pub fn mk(b: &[Lit]) -> Val {
	let mut x = 0u128;
	for (i, l) in b.iter().enumerate() {
		match *l {
			F => {},
			T => x |= 1 << i,
			_ => return Val::S(b.into()),
		}
	}
	Val::C(x)
}

pub fn cast(k: CastK, v: &Val, from: u32, to: u32) -> Val {
	match v {
		Val::C(x) => Val::C(match k {
			CastK::Zext | CastK::Bit => *x,
			CastK::Trunc => mask(*x, to),
			CastK::Sext => mask(sext128(*x, from) as u128, to),
		}),
		Val::S(b) => {
			let mut o = b.to_vec();
			match k {
				CastK::Bit => {},
				CastK::Trunc => o.truncate(to as usize),
				CastK::Zext => o.resize(to as usize, F),
				CastK::Sext => {
					let t = o[from as usize - 1];
					o.resize(to as usize, t);
				},
			}
			mk(&o)
		},
		Val::A(_) => panic!("cast of aggregate"),
	}
}

fn insert(agg: &mut Val, path: &[u32], x: Val) {
	if path.is_empty() {
		*agg = x;
		return;
	}
	if let Val::A(v) = agg {
		let v = Rc::make_mut(v);
		insert(&mut v[path[0] as usize], &path[1..], x);
	} else {
		panic!("insert into scalar");
	}
}

/// Is this a function of the standard library? (Its functions that do not return are those that panic.)
fn library(name: &str) -> bool {
	let b = name.as_bytes();
	for i in 0..b.len().saturating_sub(2) {
		if &b[i..i + 2] == b"Cs" {
			let mut j = i + 2;
			while j < b.len() && b[j].is_ascii_alphanumeric() {
				j += 1;
			}
			let r = &name[j..];
			return ["_4core", "_5alloc", "_3std"].iter().any(|x| r.starts_with(x));
		}
	}
	// the old mangling, and symbols without any
	["_ZN4core", "_ZN5alloc", "_ZN3std", "__rust", "rust_"].iter().any(|x| name.starts_with(x))
}
