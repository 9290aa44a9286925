//! Hash-consed Boolean nodes (variables, binary AND, n-ary canonical XOR) and bit-vector arithmetic over them.

use std::collections::HashMap;
use std::rc::Rc;

pub type Lit = u32;
pub const F: Lit = 0;
pub const T: Lit = 1;

#[inline]
pub fn not(a: Lit) -> Lit {
	a ^ 1
}
#[inline]
pub fn nid(a: Lit) -> u32 {
	a >> 1
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
	Const,
	Var(u32),
	And(Lit, Lit),
	Xor(Rc<[u32]>),
}

pub struct Lits {
	pub nodes: Vec<Node>,
	and_tab: HashMap<(Lit, Lit), u32>,
	xor_tab: HashMap<Rc<[u32]>, u32>,
	var_tab: HashMap<u32, u32>,
	ev: Vec<u8>,
	ev_stack: Vec<u32>,
	ev_model: u64,
}

impl Lits {
	pub fn new() -> Self {
		Lits {
			nodes: vec![Node::Const],
			and_tab: HashMap::new(),
			xor_tab: HashMap::new(),
			var_tab: HashMap::new(),
			ev: vec![],
			ev_stack: vec![],
			ev_model: u64::MAX,
		}
	}
	pub fn var(&mut self, v: u32) -> Lit {
		if let Some(n) = self.var_tab.get(&v) {
			return n << 1;
		}
		let n = self.nodes.len() as u32;
		self.nodes.push(Node::Var(v));
		self.var_tab.insert(v, n);
		n << 1
	}
	pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
		if a == F || b == F || a == not(b) {
			return F;
		}
		if a == T || a == b {
			return b;
		}
		if b == T {
			return a;
		}
		let (a, b) = if a < b { (a, b) } else { (b, a) };
		for (p, q) in [(a, b), (b, a)] {
			if let Node::And(x, y) = self.nodes[nid(p) as usize] {
				if p & 1 == 0 {
					if q == x || q == y {
						return p;
					}
					if q == not(x) || q == not(y) {
						return F;
					}
				} else {
					// p = !(x & y)
					if q == not(x) || q == not(y) {
						return q;
					}
					if q == x {
						return self.and(q, not(y));
					}
					if q == y {
						return self.and(q, not(x));
					}
				}
			}
		}
		if let Some(n) = self.and_tab.get(&(a, b)) {
			return n << 1;
		}
		let n = self.nodes.len() as u32;
		self.nodes.push(Node::And(a, b));
		self.and_tab.insert((a, b), n);
		n << 1
	}
	pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
		not(self.and(not(a), not(b)))
	}
	pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
		let neg = (a ^ b) & 1;
		let (x, y) = (nid(a), nid(b));
		if x == y {
			return neg;
		}
		if x == 0 {
			return (y << 1) | neg;
		}
		if y == 0 {
			return (x << 1) | neg;
		}
		let xa;
		let xs: &[u32] = match &self.nodes[x as usize] {
			Node::Xor(l) => l,
			_ => {
				xa = [x];
				&xa
			},
		};
		let ya;
		let ys: &[u32] = match &self.nodes[y as usize] {
			Node::Xor(l) => l,
			_ => {
				ya = [y];
				&ya
			},
		};
		let mut out = Vec::with_capacity(xs.len() + ys.len());
		let (mut i, mut j) = (0, 0);
		while i < xs.len() && j < ys.len() {
			if xs[i] < ys[j] {
				out.push(xs[i]);
				i += 1;
			} else if ys[j] < xs[i] {
				out.push(ys[j]);
				j += 1;
			} else {
				i += 1;
				j += 1;
			}
		}
		out.extend_from_slice(&xs[i..]);
		out.extend_from_slice(&ys[j..]);
		self.mk_xor(out) ^ neg
	}
	fn mk_xor(&mut self, atoms: Vec<u32>) -> Lit {
		match atoms.len() {
			0 => F,
			1 => atoms[0] << 1,
			_ => {
				if let Some(n) = self.xor_tab.get(&atoms[..]) {
					return n << 1;
				}
				let n = self.nodes.len() as u32;
				let r: Rc<[u32]> = atoms.into();
				self.nodes.push(Node::Xor(r.clone()));
				self.xor_tab.insert(r, n);
				n << 1
			},
		}
	}
	pub fn ite(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
		if c == T || a == b {
			return a;
		}
		if c == F {
			return b;
		}
		if a == not(b) {
			return not(self.xor(c, a));
		}
		if a == T || a == c {
			return self.or(c, b);
		}
		if a == F || a == not(c) {
			return self.and(not(c), b);
		}
		if b == F || b == c {
			return self.and(c, a);
		}
		if b == T || b == not(c) {
			return self.or(not(c), a);
		}
		let p = self.and(c, a);
		let q = self.and(not(c), b);
		self.or(p, q)
	}
	/// Evaluate under a model (bit per variable, missing = 0). `mid` identifies the model for memoisation.
	pub fn eval(&mut self, l: Lit, model: &[u8], mid: u64) -> bool {
		if self.ev_model != mid {
			self.ev_model = mid;
			self.ev.clear();
		}
		if self.ev.len() < self.nodes.len() {
			self.ev.resize(self.nodes.len(), 2);
		}
		let root = nid(l);
		let mut st = std::mem::take(&mut self.ev_stack);
		st.push(root);
		while let Some(&n) = st.last() {
			if self.ev[n as usize] != 2 {
				st.pop();
				continue;
			}
			let v = match &self.nodes[n as usize] {
				Node::Const => Some(0),
				Node::Var(v) => Some(*model.get(*v as usize).unwrap_or(&0)),
				Node::And(a, b) => {
					let ea = self.ev[nid(*a) as usize];
					let eb = self.ev[nid(*b) as usize];
					if ea == 2 {
						st.push(nid(*a));
						None
					} else if (ea as u32 ^ (a & 1)) == 0 {
						Some(0)
					} else if eb == 2 {
						st.push(nid(*b));
						None
					} else {
						Some((eb as u32 ^ (b & 1)) as u8)
					}
				},
				Node::Xor(l) => {
					let mut r = 0;
					let mut ok = true;
					for &x in l.iter() {
						let e = self.ev[x as usize];
						if e == 2 {
							st.push(x);
							ok = false;
						} else {
							r ^= e;
						}
					}
					if ok {
						Some(r)
					} else {
						None
					}
				},
			};
			if let Some(v) = v {
				self.ev[n as usize] = v;
				st.pop();
			}
		}
		self.ev_stack = st;
		(self.ev[root as usize] as u32 ^ (l & 1)) != 0
	}

	/// Equisatisfiable reduction of a conjunction: linear (XOR) constraints with a variable that occurs in no
	/// non-linear term are solved for that variable and dropped.
	/// Returns the remaining conjunction and the solved variables `v = neg ^ rest...`, to be evaluated back to front.
	pub fn reduce(&mut self, a: &[Lit]) -> (Vec<Lit>, Vec<(u32, bool, Vec<u32>)>) {
		let mut seen = std::collections::HashSet::new();
		let mut work: Vec<Lit> = a.to_vec();
		let mut other: Vec<Lit> = vec![];
		// (XOR of atoms) == rhs
		let mut lin: Vec<(Vec<u32>, bool, Lit)> = vec![];
		while let Some(x) = work.pop() {
			if x == T || !seen.insert(x) {
				continue;
			}
			match &self.nodes[nid(x) as usize] {
				Node::And(p, q) if x & 1 == 0 => {
					work.push(*p);
					work.push(*q);
				},
				Node::Xor(at) => lin.push((at.to_vec(), x & 1 == 0, x)),
				Node::Var(_) => lin.push((vec![nid(x)], x & 1 == 0, x)),
				_ => other.push(x),
			}
		}
		// everything below a non-linear term
		let mut bound = vec![false; self.nodes.len()];
		let mut st: Vec<u32> = other.iter().map(|x| nid(*x)).collect();
		for (at, _, _) in &lin {
			for &n in at {
				if !matches!(self.nodes[n as usize], Node::Var(_)) {
					st.push(n);
				}
			}
		}
		while let Some(n) = st.pop() {
			if std::mem::replace(&mut bound[n as usize], true) {
				continue;
			}
			match &self.nodes[n as usize] {
				Node::And(p, q) => {
					st.push(nid(*p));
					st.push(nid(*q));
				},
				Node::Xor(at) => st.extend_from_slice(at),
				_ => {},
			}
		}
		let free: Vec<bool> = bound.iter().enumerate().map(|(n, b)| !*b && matches!(self.nodes[n], Node::Var(_))).collect();
		let mut pivots = vec![];
		let mut i = 0;
		let mut rows: Vec<Option<(Vec<u32>, bool, Lit, bool)>> = lin.into_iter().map(|(a, r, x)| Some((a, r, x, false))).collect();
		while i < rows.len() {
			let (at, rhs, x, ch) = rows[i].take().unwrap();
			if at.is_empty() {
				if rhs {
					return (vec![F], vec![]);
				}
				i += 1;
				continue;
			}
			match at.iter().copied().find(|n| free[*n as usize]) {
				Some(p) => {
					for row in rows.iter_mut().skip(i + 1) {
						if let Some(r) = row {
							if r.0.binary_search(&p).is_ok() {
								let mut out = vec![];
								let (mut j, mut k) = (0, 0);
								while j < at.len() || k < r.0.len() {
									if k == r.0.len() || (j < at.len() && at[j] < r.0[k]) {
										out.push(at[j]);
										j += 1;
									} else if j == at.len() || r.0[k] < at[j] {
										out.push(r.0[k]);
										k += 1;
									} else {
										j += 1;
										k += 1;
									}
								}
								r.0 = out;
								r.1 ^= rhs;
								r.3 = true;
							}
						}
					}
					let Node::Var(v) = self.nodes[p as usize] else { unreachable!() };
					pivots.push((v, rhs, at.into_iter().filter(|n| *n != p).collect()));
				},
				None => {
					// what is left of the row
					let y = if ch { self.mk_xor(at) ^ !rhs as u32 } else { x };
					other.push(y);
				},
			}
			i += 1;
		}
		(other, pivots)
	}

	// ------------------------------------------------------------ bit-vectors (LSB first)

	pub fn cbits(x: u128, w: u32) -> Vec<Lit> {
		(0..w).map(|i| ((x >> i) & 1) as u32).collect()
	}
	pub fn bv_eq(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
		let mut r = T;
		for i in 0..a.len() {
			let x = self.xor(a[i], b[i]);
			r = self.and(r, not(x));
			if r == F {
				return F;
			}
		}
		r
	}
	pub fn bv_ult(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
		let mut r = F;
		for i in 0..a.len() {
			// at bit i: if a!=b then (!a & b) else r
			let d = self.xor(a[i], b[i]);
			r = self.ite(d, b[i], r);
		}
		r
	}
	pub fn bv_slt(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
		let n = a.len();
		let mut x = a.to_vec();
		let mut y = b.to_vec();
		x[n - 1] = not(x[n - 1]);
		y[n - 1] = not(y[n - 1]);
		self.bv_ult(&x, &y)
	}
	/// a + b + cin, returns (sum, carry out).
	pub fn bv_add(&mut self, a: &[Lit], b: &[Lit], cin: Lit) -> (Vec<Lit>, Lit) {
		let mut c = cin;
		let mut o = Vec::with_capacity(a.len());
		for i in 0..a.len() {
			let x = self.xor(a[i], b[i]);
			o.push(self.xor(x, c));
			// carry = x ? c : a
			c = self.ite(x, c, a[i]);
		}
		(o, c)
	}
	pub fn bv_not(a: &[Lit]) -> Vec<Lit> {
		a.iter().map(|x| not(*x)).collect()
	}
	pub fn bv_sub(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Lit) {
		let nb = Self::bv_not(b);
		let (s, c) = self.bv_add(a, &nb, T);
		(s, not(c)) // borrow
	}
	pub fn bv_mul(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
		let n = a.len();
		let ca = a.iter().filter(|x| **x > 1).count();
		let cb = b.iter().filter(|x| **x > 1).count();
		let (a, b) = if ca < cb { (b, a) } else { (a, b) };
		// b is the multiplier
		let mut acc = vec![F; n];
		for i in 0..n {
			if b[i] == F {
				continue;
			}
			let mut row = vec![F; n];
			for j in 0..n - i {
				row[i + j] = self.and(a[j], b[i]);
			}
			acc = self.bv_add(&acc, &row, F).0;
		}
		acc
	}
	pub fn bv_ite(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
		(0..a.len()).map(|i| self.ite(c, a[i], b[i])).collect()
	}
	/// Unsigned restoring division (divisor assumed non-zero): (quotient, remainder).
	pub fn bv_udivrem(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
		let n = a.len();
		let mut r = vec![F; n];
		let mut q = vec![F; n];
		for i in (0..n).rev() {
			let top = r[n - 1];
			let mut r2 = vec![a[i]];
			r2.extend_from_slice(&r[..n - 1]);
			let (d, borrow) = self.bv_sub(&r2, b);
			// if the shifted-out bit is 1, r2 >= b for sure
			let ge = self.or(top, not(borrow));
			q[i] = ge;
			r = self.bv_ite(ge, &d, &r2);
		}
		(q, r)
	}
	pub fn bv_shl(&mut self, a: &[Lit], s: &[Lit], fill: Lit, left: bool) -> Vec<Lit> {
		let n = a.len();
		let mut cur = a.to_vec();
		let mut k = 0;
		while (1usize << k) < n {
			let sh = 1usize << k;
			let mut nx = vec![fill; n];
			for i in 0..n {
				if left {
					if i >= sh {
						nx[i] = cur[i - sh];
					} else {
						nx[i] = F;
					}
				} else if i + sh < n {
					nx[i] = cur[i + sh];
				}
			}
			let c = *s.get(k).unwrap_or(&F);
			cur = self.bv_ite(c, &nx, &cur);
			k += 1;
		}
		let mut big = F;
		for i in k..s.len() {
			big = self.or(big, s[i]);
		}
		if big != F {
			let f = vec![if left { F } else { fill }; n];
			cur = self.bv_ite(big, &f, &cur);
		}
		cur
	}
	pub fn bv_any(&mut self, a: &[Lit]) -> Lit {
		let mut r = F;
		for &x in a {
			r = self.or(r, x);
		}
		r
	}
}
