//! Minimal binding to libz3 and an incremental solver over `Lits`.

use crate::lit::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
	fn Z3_mk_config() -> P;
	fn Z3_del_config(c: P);
	fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
	fn Z3_mk_context(c: P) -> P;
	fn Z3_del_context(c: P);
	fn Z3_set_error_handler(c: P, h: *const c_void);
	fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
	fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
	fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
	fn Z3_solver_inc_ref(c: P, s: P);
	fn Z3_solver_dec_ref(c: P, s: P);
	fn Z3_solver_assert(c: P, s: P, a: P);
	fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
	fn Z3_solver_get_model(c: P, s: P) -> P;
	fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
	fn Z3_solver_set_params(c: P, s: P, p: P);
	fn Z3_mk_params(c: P) -> P;
	fn Z3_params_inc_ref(c: P, p: P);
	fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
	fn Z3_model_inc_ref(c: P, m: P);
	fn Z3_model_dec_ref(c: P, m: P);
	fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
	fn Z3_get_bool_value(c: P, a: P) -> c_int;
	fn Z3_mk_bool_sort(c: P) -> P;
	fn Z3_mk_const(c: P, s: P, sort: P) -> P;
	fn Z3_mk_not(c: P, a: P) -> P;
	fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
	unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
	Sat,
	Unsat,
	Unknown,
}

pub struct Solver {
	ctx: P,
	s: P,
	bsort: P,
	defs: HashMap<u32, (P, P)>,
	aux: u32,
	vars: Vec<(u32, P)>,
	pub queries: u64,
	pub sat: u64,
	pub unsat: u64,
	pub time: f64,
	pub unknown_reason: String,
	asts: u32,
}

extern "C" fn on_err(_c: P, e: c_int) {
	eprintln!("z3 error {}", e);
	std::process::abort();
}

impl Solver {
	pub fn new() -> Self {
		{
			let mut s = Solver {
				ctx: std::ptr::null_mut(),
				s: std::ptr::null_mut(),
				bsort: std::ptr::null_mut(),
				defs: HashMap::new(),
				aux: 0,
				vars: vec![],
				queries: 0,
				sat: 0,
				unsat: 0,
				time: 0.0,
				unknown_reason: String::new(),
				asts: 0,
			};
			s.fresh_solver();
			s
		}
	}
	fn fresh_solver(&mut self) {
		unsafe {
			if !self.s.is_null() {
				Z3_solver_dec_ref(self.ctx, self.s);
				Z3_del_context(self.ctx);
			}
			let cfg = Z3_mk_config();
			let k = CString::new("auto_config").unwrap();
			let v = CString::new("true").unwrap();
			Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
			let ctx = Z3_mk_context(cfg);
			Z3_del_config(cfg);
			Z3_set_error_handler(ctx, on_err as *const c_void);
			let bsort = Z3_mk_bool_sort(ctx);
			self.ctx = ctx;
			self.bsort = bsort;
			let l = CString::new("QF_FD").unwrap();
			let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
			self.s = Z3_mk_solver_for_logic(self.ctx, sym);
			Z3_solver_inc_ref(self.ctx, self.s);
			let p = Z3_mk_params(self.ctx);
			Z3_params_inc_ref(self.ctx, p);
			let k = CString::new("rlimit").unwrap();
			let ks = Z3_mk_string_symbol(self.ctx, k.as_ptr());
			Z3_params_set_uint(self.ctx, p, ks, 400_000_000);
			Z3_solver_set_params(self.ctx, self.s, p);
		}
		self.defs.clear();
		self.vars.clear();
		self.asts = 0;
		self.aux = 0;
	}
	fn fresh(&mut self) -> (P, P) {
		unsafe {
			// Negative ints are not allowed for symbols: use a counter.
			self.aux += 1;
			let sym = Z3_mk_int_symbol(self.ctx, (self.aux & 0x1fff_ffff) as c_int);
			let a = Z3_mk_const(self.ctx, sym, self.bsort);
			(a, Z3_mk_not(self.ctx, a))
		}
	}
	fn clause(&mut self, c: &[P]) {
		self.asts += 1;
		unsafe {
			let a = Z3_mk_or(self.ctx, c.len() as c_uint, c.as_ptr());
			Z3_solver_assert(self.ctx, self.s, a);
		}
	}
	fn lit(&mut self, l: &Lits, x: Lit) -> P {
		let n = nid(x);
		if !self.defs.contains_key(&n) {
			self.define(l, n);
		}
		let d = self.defs[&n];
		if x & 1 == 1 {
			d.1
		} else {
			d.0
		}
	}
	fn define(&mut self, l: &Lits, root: u32) {
		let mut st = vec![root];
		while let Some(&n) = st.last() {
			if self.defs.contains_key(&n) {
				st.pop();
				continue;
			}
			match &l.nodes[n as usize] {
				Node::Const => {
					let d = self.fresh();
					self.clause(&[d.1]);
					self.defs.insert(n, d);
				},
				Node::Var(v) => {
					let d = self.fresh();
					self.vars.push((*v, d.0));
					self.defs.insert(n, d);
				},
				Node::And(a, b) => {
					let (a, b) = (*a, *b);
					let (pa, pb) = (self.defs.contains_key(&nid(a)), self.defs.contains_key(&nid(b)));
					if !pa || !pb {
						if !pa {
							st.push(nid(a));
						}
						if !pb {
							st.push(nid(b));
						}
						continue;
					}
					let d = self.fresh();
					let sel = |t: (P, P), x: Lit| if x & 1 == 1 { (t.1, t.0) } else { t };
					let x = sel(self.defs[&nid(a)], a);
					let y = sel(self.defs[&nid(b)], b);
					self.clause(&[d.1, x.0]);
					self.clause(&[d.1, y.0]);
					self.clause(&[d.0, x.1, y.1]);
					self.defs.insert(n, d);
				},
				Node::Xor(atoms) => {
					let atoms = atoms.clone();
					let mut ready = true;
					for a in atoms.iter() {
						if !self.defs.contains_key(a) {
							st.push(*a);
							ready = false;
						}
					}
					if !ready {
						continue;
					}
					let mut acc = self.defs[&atoms[0]];
					let mut i = 1;
					while i < atoms.len() {
						let y = self.defs[&atoms[i]];
						let t = self.fresh();
						// t = acc ^ y
						self.clause(&[t.1, acc.0, y.0]);
						self.clause(&[t.1, acc.1, y.1]);
						self.clause(&[t.0, acc.1, y.0]);
						self.clause(&[t.0, acc.0, y.1]);
						acc = t;
						i += 1;
					}
					self.defs.insert(n, acc);
				},
			}
		}
	}
	/// Satisfiability of the conjunction of `lits`; on SAT, `model` receives one value per variable.
	pub fn check(&mut self, l: &Lits, lits: &[Lit], model: &mut Vec<u8>) -> Res {
		if self.asts > 10_000 {
			self.fresh_solver();
		}
		let t0 = std::time::Instant::now();
		let mut a: Vec<P> = Vec::with_capacity(lits.len());
		for &x in lits {
			if x == T {
				continue;
			}
			if x == F {
				return Res::Unsat;
			}
			a.push(self.lit(l, x));
		}
		self.queries += 1;
		let r = unsafe { Z3_solver_check_assumptions(self.ctx, self.s, a.len() as c_uint, a.as_ptr()) };
		let res = match r {
			1 => {
				self.sat += 1;
				unsafe {
					let m = Z3_solver_get_model(self.ctx, self.s);
					Z3_model_inc_ref(self.ctx, m);
					for (v, p) in &self.vars {
						let mut o: P = std::ptr::null_mut();
						let ok = Z3_model_eval(self.ctx, m, *p, true, &mut o);
						let b = ok && Z3_get_bool_value(self.ctx, o) == 1;
						let v = *v as usize;
						if v >= (1 << 24) {
							continue;
						}
						if model.len() <= v {
							model.resize(v + 1, 0);
						}
						model[v] = b as u8;
					}
					Z3_model_dec_ref(self.ctx, m);
				}
				Res::Sat
			},
			-1 => {
				self.unsat += 1;
				Res::Unsat
			},
			_ => {
				unsafe {
					self.unknown_reason = CStr::from_ptr(Z3_solver_get_reason_unknown(self.ctx, self.s)).to_string_lossy().to_string();
				}
				Res::Unknown
			},
		};
		self.time += t0.elapsed().as_secs_f64();
		res
	}
}

impl Drop for Solver {
	fn drop(&mut self) {
		unsafe {
			Z3_solver_dec_ref(self.ctx, self.s);
			Z3_del_context(self.ctx);
		}
	}
}
