//! Parser for the subset of textual LLVM IR that rustc emits, lowered to a compact executable form.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
	Void,
	Int(u32),
	Ptr,
	Array(u64, Box<Ty>),
	Struct(Vec<Ty>, bool),
	Vector(u64, Box<Ty>),
	Float(u32),
	Meta,
	Label,
}

impl Ty {
	pub fn align(&self) -> u64 {
		match self {
			Ty::Int(w) => match w {
				0..=8 => 1,
				9..=16 => 2,
				17..=32 => 4,
				33..=64 => 8,
				_ => 16,
			},
			Ty::Ptr => 8,
			Ty::Array(_, t) => t.align(),
			Ty::Struct(f, packed) => {
				if *packed {
					1
				} else {
					f.iter().map(|t| t.align()).max().unwrap_or(1)
				}
			},
			Ty::Vector(..) => self.size().next_power_of_two(),
			Ty::Float(w) => (*w / 8) as u64,
			_ => 1,
		}
	}
	pub fn store_size(&self) -> u64 {
		match self {
			Ty::Int(w) => ((*w as u64) + 7) / 8,
			_ => self.size(),
		}
	}
	pub fn size(&self) -> u64 {
		match self {
			Ty::Void | Ty::Meta | Ty::Label => 0,
			Ty::Int(_) => round_up(self.store_size(), self.align()),
			Ty::Ptr => 8,
			Ty::Array(n, t) => n * t.size(),
			Ty::Vector(n, t) => match **t {
				Ty::Int(w) => (n * w as u64 + 7) / 8,
				_ => n * t.size(),
			},
			Ty::Float(w) => (*w / 8) as u64,
			Ty::Struct(f, packed) => {
				let mut o = 0;
				for t in f {
					if !*packed {
						o = round_up(o, t.align());
					}
					o += t.size();
				}
				round_up(o, self.align())
			},
		}
	}
	pub fn field_offset(&self, i: usize) -> u64 {
		match self {
			Ty::Struct(f, packed) => {
				let mut o = 0;
				for (k, t) in f.iter().enumerate() {
					if !*packed {
						o = round_up(o, t.align());
					}
					if k == i {
						return o;
					}
					o += t.size();
				}
				panic!("field index")
			},
			Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
			_ => panic!("field_offset on {:?}", self),
		}
	}
	pub fn elem(&self, i: usize) -> &Ty {
		match self {
			Ty::Struct(f, _) => &f[i],
			Ty::Array(_, t) | Ty::Vector(_, t) => t,
			_ => panic!("elem on {:?}", self),
		}
	}
	pub fn nelem(&self) -> usize {
		match self {
			Ty::Struct(f, _) => f.len(),
			Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
			_ => panic!("nelem"),
		}
	}
	pub fn bits(&self) -> u32 {
		match self {
			Ty::Int(w) => *w,
			Ty::Ptr => 64,
			Ty::Float(w) => *w,
			_ => panic!("bits of {:?}", self),
		}
	}
	pub fn is_scalar(&self) -> bool {
		matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
	}
}

pub fn round_up(x: u64, a: u64) -> u64 {
	(x + a - 1) / a * a
}

/// Constant (may refer to globals, resolved at link time).
#[derive(Clone, Debug)]
pub enum Const {
	Int(u128),
	Null,
	Undef,
	Zero,
	Bytes(Vec<u8>),
	Agg(Vec<(Ty, Const)>),
	Global(String),
	Gep(Box<Const>, Ty, Vec<i128>),
	Cast(Box<Const>),
	Bin(Op, u32, Box<Const>, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
	Reg(u32),
	Imm(u128),
	/// Needs link-time resolution (index into function's const pool until then).
	Const(Box<(Ty, Const)>),
	/// Resolved aggregate constant
	AggC(std::sync::Arc<CVal>),
}

/// Resolved constant value.
#[derive(Clone, Debug)]
pub enum CVal {
	I(u128),
	A(Vec<CVal>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
	Add,
	Sub,
	Mul,
	UDiv,
	SDiv,
	URem,
	SRem,
	And,
	Or,
	Xor,
	Shl,
	LShr,
	AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
	Eq,
	Ne,
	Ugt,
	Uge,
	Ult,
	Ule,
	Sgt,
	Sge,
	Slt,
	Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
	Zext,
	Sext,
	Trunc,
	Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
	Name(String),
	Func(u32),
	Intr(Intr),
	Ind(Opnd),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
	Nop,
	Memcpy,
	Memset,
	Bcmp,
	Umin,
	Umax,
	Smin,
	Smax,
	UaddSat,
	UsubSat,
	SaddSat,
	SsubSat,
	UaddO,
	UsubO,
	UmulO,
	SaddO,
	SsubO,
	SmulO,
	Ctpop,
	Ctlz,
	Cttz,
	Bswap,
	Bitreverse,
	Fshl,
	Fshr,
	Abs,
	Ucmp,
	Scmp,
	Expect,
	Trap,
	IsConstant,
	Ptrmask,
	SAny,
	SChoose,
	SAssume,
	SAssert,
	SCover,
	SObs,
	SParam,
	SAllowPanic,
	STry,
	SIrq,
	SAlloc,
	SFree,
	SPanic,
	SConcrete,
	SMark,
}

#[derive(Clone, Debug)]
pub enum Inst {
	Alloca { dst: u32, size: u64, count: Opnd },
	Load { dst: u32, ty: Ty, ptr: Opnd },
	Store { ty: Ty, val: Opnd, ptr: Opnd },
	Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
	Bin { dst: u32, op: Op, ty: Ty, a: Opnd, b: Opnd },
	Icmp { dst: u32, p: Pred, ty: Ty, a: Opnd, b: Opnd },
	Select { dst: u32, c: Opnd, cty: Ty, ty: Ty, a: Opnd, b: Opnd },
	Cast { dst: u32, k: CastK, from: Ty, to: Ty, a: Opnd },
	Extract { dst: u32, a: Opnd, path: Vec<u32> },
	Insert { dst: u32, aty: Ty, a: Opnd, v: Opnd, path: Vec<u32> },
	Freeze { dst: u32, a: Opnd },
	Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opnd)>, next: Option<u32> },
	AtomicRmw { dst: u32, op: String, ty: Ty, ptr: Opnd, val: Opnd },
	CmpXchg { dst: u32, ty: Ty, ptr: Opnd, cmp: Opnd, new: Opnd },
	ExtractElt { dst: u32, a: Opnd, i: Opnd },
	InsertElt { dst: u32, vty: Ty, a: Opnd, v: Opnd, i: Opnd },
	Shuffle { dst: u32, vty: Ty, a: Opnd, b: Opnd, mask: Vec<i64> },
	Br(u32),
	CondBr(Opnd, u32, u32),
	Switch { ty: Ty, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
	Ret(Option<(Ty, Opnd)>),
	Unreachable,
	Unsupported(String),
}

#[derive(Clone, Debug, Default)]
pub struct Block {
	pub name: String,
	pub phis: Vec<(u32, Ty, Vec<(Opnd, u32)>)>,
	pub insts: Vec<Inst>,
	pub dbg: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Func {
	pub name: String,
	pub params: Vec<(Ty, u32)>,
	pub blocks: Vec<Block>,
	pub nregs: u32,
	pub noreturn: bool,
	pub declared: bool,
}

#[derive(Clone, Debug)]
pub struct GlobalVar {
	pub name: String,
	pub ty: Ty,
	pub init: Option<Const>,
	pub constant: bool,
	pub alias_of: Option<Const>,
}

#[derive(Default, Debug)]
pub struct Module {
	pub globals: Vec<GlobalVar>,
	pub funcs: Vec<Func>,
	pub fidx: HashMap<String, u32>,
	pub meta: HashMap<u32, String>,
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
	W(String),      // word / keyword / type / number
	L(String),      // %local
	G(String),      // @global
	Str(Vec<u8>),   // "..."
	CStr(Vec<u8>),  // c"..."
	Attr(String),   // #N
	Md(String),     // !...
	P(char),        // punctuation
	Ellipsis,
}

fn unescape(s: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(s.len());
	let mut i = 0;
	while i < s.len() {
		if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1] == b'\\' {
			out.push(b'\\');
			i += 2;
		} else if s[i] == b'\\' {
			let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
			out.push(u8::from_str_radix(h, 16).unwrap());
			i += 3;
		} else {
			out.push(s[i]);
			i += 1;
		}
	}
	out
}

pub fn lex(line: &str) -> Vec<Tok> {
	let b = line.as_bytes();
	let mut i = 0;
	let mut out = Vec::new();
	let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
	while i < b.len() {
		let c = b[i];
		match c {
			b' ' | b'\t' | b'\n' | b'\r' => i += 1,
			b';' => break,
			b'"' => {
				let st = i + 1;
				i += 1;
				while b[i] != b'"' {
					i += 1;
				}
				out.push(Tok::Str(unescape(&b[st..i])));
				i += 1;
			},
			b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
				let st = i + 2;
				i += 2;
				while b[i] != b'"' {
					i += 1;
				}
				out.push(Tok::CStr(unescape(&b[st..i])));
				i += 1;
			},
			b'%' | b'@' => {
				i += 1;
				let name;
				if i < b.len() && b[i] == b'"' {
					let st = i + 1;
					i += 1;
					while b[i] != b'"' {
						i += 1;
					}
					name = String::from_utf8_lossy(&b[st..i]).to_string();
					i += 1;
				} else {
					let st = i;
					while i < b.len() && isw(b[i]) {
						i += 1;
					}
					name = line[st..i].to_string();
				}
				out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
			},
			b'#' => {
				let st = i + 1;
				i += 1;
				while i < b.len() && b[i].is_ascii_digit() {
					i += 1;
				}
				out.push(Tok::Attr(line[st..i].to_string()));
			},
			b'!' => {
				let st = i + 1;
				i += 1;
				while i < b.len() && isw(b[i]) {
					i += 1;
				}
				out.push(Tok::Md(line[st..i].to_string()));
			},
			b'.' if line[i..].starts_with("...") => {
				out.push(Tok::Ellipsis);
				i += 3;
			},
			_ if isw(c) => {
				let st = i;
				while i < b.len() && isw(b[i]) {
					i += 1;
				}
				out.push(Tok::W(line[st..i].to_string()));
			},
			_ => {
				out.push(Tok::P(c as char));
				i += 1;
			},
		}
	}
	out
}

// ---------------------------------------------------------------- parser

struct P<'a> {
	t: &'a [Tok],
	i: usize,
	types: &'a HashMap<String, Ty>,
	regs: Option<&'a mut HashMap<String, u32>>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
	fn peek(&self) -> Option<&Tok> {
		self.t.get(self.i)
	}
	fn next(&mut self) -> R<Tok> {
		let t = self.t.get(self.i).cloned().ok_or("eof")?;
		self.i += 1;
		Ok(t)
	}
	fn isp(&self, c: char) -> bool {
		matches!(self.peek(), Some(Tok::P(x)) if *x == c)
	}
	fn isw(&self, w: &str) -> bool {
		matches!(self.peek(), Some(Tok::W(x)) if x == w)
	}
	fn eatp(&mut self, c: char) -> bool {
		if self.isp(c) {
			self.i += 1;
			true
		} else {
			false
		}
	}
	fn eatw(&mut self, w: &str) -> bool {
		if self.isw(w) {
			self.i += 1;
			true
		} else {
			false
		}
	}
	fn expp(&mut self, c: char) -> R<()> {
		if self.eatp(c) {
			Ok(())
		} else {
			Err(format!("expected {:?} got {:?}", c, self.peek()))
		}
	}
	fn skip_parens(&mut self) -> R<()> {
		self.expp('(')?;
		let mut d = 1;
		while d > 0 {
			match self.next()? {
				Tok::P('(') => d += 1,
				Tok::P(')') => d -= 1,
				_ => {},
			}
		}
		Ok(())
	}
	fn num(&mut self) -> R<i128> {
		match self.next()? {
			Tok::W(w) => w.parse::<i128>().map_err(|_| format!("num {}", w)),
			t => Err(format!("num {:?}", t)),
		}
	}
	fn ty(&mut self) -> R<Ty> {
		match self.next()? {
			Tok::W(w) => match w.as_str() {
				"void" => Ok(Ty::Void),
				"ptr" => {
					if self.eatw("addrspace") {
						self.skip_parens()?;
					}
					Ok(Ty::Ptr)
				},
				"float" => Ok(Ty::Float(32)),
				"double" => Ok(Ty::Float(64)),
				"metadata" => Ok(Ty::Meta),
				"label" => Ok(Ty::Label),
				_ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ok(Ty::Int(w[1..].parse().unwrap())),
				_ => Err(format!("type {}", w)),
			},
			Tok::P('[') => {
				let n = self.num()? as u64;
				if !self.eatw("x") {
					return Err("array x".into());
				}
				let t = self.ty()?;
				self.expp(']')?;
				Ok(Ty::Array(n, Box::new(t)))
			},
			Tok::P('{') => {
				let mut f = vec![];
				while !self.eatp('}') {
					f.push(self.ty()?);
					self.eatp(',');
				}
				Ok(Ty::Struct(f, false))
			},
			Tok::P('<') => {
				if self.eatp('{') {
					let mut f = vec![];
					while !self.eatp('}') {
						f.push(self.ty()?);
						self.eatp(',');
					}
					self.expp('>')?;
					return Ok(Ty::Struct(f, true));
				}
				let n = self.num()? as u64;
				if !self.eatw("x") {
					return Err("vec x".into());
				}
				let t = self.ty()?;
				self.expp('>')?;
				Ok(Ty::Vector(n, Box::new(t)))
			},
			Tok::L(n) => self.types.get(&n).cloned().ok_or(format!("unknown type %{}", n)),
			t => Err(format!("type tok {:?}", t)),
		}
	}
	fn reg(&mut self, name: &str) -> R<u32> {
		let m = self.regs.as_mut().ok_or("no regs")?;
		let n = m.len() as u32;
		Ok(*m.entry(name.to_string()).or_insert(n))
	}
	fn is_value_start(&self) -> bool {
		match self.peek() {
			Some(Tok::L(_)) | Some(Tok::G(_)) | Some(Tok::CStr(_)) | Some(Tok::Md(_)) => true,
			Some(Tok::P(c)) => matches!(c, '{' | '[' | '<'),
			Some(Tok::W(w)) => {
				w.parse::<i128>().is_ok()
					|| w.starts_with("0x")
					|| w.parse::<f64>().is_ok()
					|| matches!(
						w.as_str(),
						"true"
							| "false" | "null" | "undef"
							| "poison" | "zeroinitializer"
							| "none" | "getelementptr"
							| "ptrtoint" | "inttoptr"
							| "bitcast" | "addrspacecast"
							| "trunc" | "zext" | "sext"
							| "add" | "sub" | "mul"
							| "and" | "or" | "xor"
							| "shl" | "lshr" | "ashr"
							| "splat"
					)
			},
			_ => false,
		}
	}
	fn skip_attrs(&mut self) -> R<()> {
		while !self.is_value_start() {
			match self.peek() {
				Some(Tok::W(w)) => {
					let w = w.clone();
					self.i += 1;
					if self.isp('(') {
						self.skip_parens()?;
					} else if w == "align" {
						self.i += 1;
					}
				},
				Some(Tok::Str(_)) => {
					self.i += 1;
					if self.eatp('=') {
						self.i += 1;
					}
				},
				_ => break,
			}
		}
		Ok(())
	}
	fn constant(&mut self, ty: &Ty) -> R<Const> {
		match self.next()? {
			Tok::G(g) => Ok(Const::Global(g)),
			Tok::CStr(s) => Ok(Const::Bytes(s)),
			Tok::P('<') if self.isp('{') => {
				self.i += 1;
				let mut v = vec![];
				while !self.eatp('}') {
					let t = self.ty()?;
					let c = self.constant(&t)?;
					v.push((t, c));
					self.eatp(',');
				}
				self.expp('>')?;
				Ok(Const::Agg(v))
			},
			Tok::P(o @ ('{' | '[' | '<')) => {
				let c = match o {
					'{' => '}',
					'[' => ']',
					_ => '>',
				};
				let mut v = vec![];
				while !self.eatp(c) {
					let t = self.ty()?;
					let k = self.constant(&t)?;
					v.push((t, k));
					self.eatp(',');
				}
				Ok(Const::Agg(v))
			},
			Tok::W(w) => match w.as_str() {
				"true" => Ok(Const::Int(1)),
				"false" => Ok(Const::Int(0)),
				"null" | "none" => Ok(Const::Null),
				"undef" | "poison" => Ok(Const::Undef),
				"zeroinitializer" => Ok(Const::Zero),
				"splat" => {
					self.expp('(')?;
					let t = self.ty()?;
					let c = self.constant(&t)?;
					self.expp(')')?;
					let n = ty.nelem();
					Ok(Const::Agg(vec![(t, c); n]))
				},
				"getelementptr" => {
					while matches!(self.peek(), Some(Tok::W(_))) {
						self.i += 1;
						if self.isp('(') && self.t.get(self.i.wrapping_sub(1)).map_or(false, |t| matches!(t, Tok::W(w) if w=="inrange")) {
							self.skip_parens()?;
						}
					}
					self.expp('(')?;
					let t = self.ty()?;
					self.expp(',')?;
					let bt = self.ty()?;
					let b = self.constant(&bt)?;
					let mut idx = vec![];
					while self.eatp(',') {
						let it = self.ty()?;
						match self.constant(&it)? {
							Const::Int(x) => idx.push(sext128(x, it.bits())),
							Const::Zero => idx.push(0),
							c => return Err(format!("gep const idx {:?}", c)),
						}
					}
					self.expp(')')?;
					Ok(Const::Gep(Box::new(b), t, idx))
				},
				"ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "sext" => {
					self.expp('(')?;
					let t = self.ty()?;
					let c = self.constant(&t)?;
					if !self.eatw("to") {
						return Err("to".into());
					}
					self.ty()?;
					self.expp(')')?;
					Ok(Const::Cast(Box::new(c)))
				},
				"add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
					let op = binop(&w).unwrap();
					while matches!(self.peek(), Some(Tok::W(_))) {
						self.i += 1;
					}
					self.expp('(')?;
					let t = self.ty()?;
					let a = self.constant(&t)?;
					self.expp(',')?;
					let t2 = self.ty()?;
					let b = self.constant(&t2)?;
					self.expp(')')?;
					Ok(Const::Bin(op, t.bits(), Box::new(a), Box::new(b)))
				},
				_ => {
					if let Ok(x) = w.parse::<i128>() {
						let wd = match ty {
							Ty::Int(n) => *n,
							_ => 64,
						};
						Ok(Const::Int(mask(x as u128, wd)))
					} else if let Ok(x) = w.parse::<u128>() {
						Ok(Const::Int(x))
					} else if w.starts_with("0x") || w.parse::<f64>().is_ok() {
						Ok(Const::Undef) // floats are not modelled
					} else {
						Err(format!("const {}", w))
					}
				},
			},
			t => Err(format!("const tok {:?}", t)),
		}
	}
	fn value(&mut self, ty: &Ty) -> R<Opnd> {
		if let Some(Tok::L(n)) = self.peek() {
			let n = n.clone();
			self.i += 1;
			return Ok(Opnd::Reg(self.reg(&n)?));
		}
		if *ty == Ty::Meta {
			self.i += 1;
			if self.isp('(') {
				self.skip_parens()?;
			}
			if self.isp('{') {
				return Err("meta".into());
			}
			return Ok(Opnd::Imm(0));
		}
		let c = self.constant(ty)?;
		Ok(match c {
			Const::Int(x) => Opnd::Imm(x),
			Const::Null => Opnd::Imm(0),
			Const::Undef | Const::Zero if ty.is_scalar() => Opnd::Imm(0),
			c => Opnd::Const(Box::new((ty.clone(), c))),
		})
	}
	fn tyval(&mut self) -> R<(Ty, Opnd)> {
		let t = self.ty()?;
		if t == Ty::Meta {
			// skip until ',' or ')' at depth 0
			let mut d = 0;
			while let Some(k) = self.peek() {
				match k {
					Tok::P('(') | Tok::P('{') => d += 1,
					Tok::P(')') if d == 0 => break,
					Tok::P(',') if d == 0 => break,
					Tok::P(')') | Tok::P('}') => d -= 1,
					_ => {},
				}
				self.i += 1;
			}
			return Ok((t, Opnd::Imm(0)));
		}
		self.skip_attrs()?;
		let v = self.value(&t)?;
		Ok((t, v))
	}
	fn skip_flags(&mut self, flags: &[&str]) -> R<()> {
		loop {
			let w = match self.peek() {
				Some(Tok::W(w)) if flags.contains(&w.as_str()) => w.clone(),
				_ => return Ok(()),
			};
			self.i += 1;
			let _ = w;
			if self.isp('(') {
				self.skip_parens()?;
			}
		}
	}
	fn label(&mut self, blocks: &HashMap<String, u32>) -> R<u32> {
		if !self.eatw("label") {
			return Err("label".into());
		}
		match self.next()? {
			Tok::L(n) => blocks.get(&n).copied().ok_or(format!("no block {}", n)),
			t => Err(format!("label {:?}", t)),
		}
	}
}

pub fn mask(x: u128, w: u32) -> u128 {
	if w >= 128 {
		x
	} else {
		x & ((1u128 << w) - 1)
	}
}
pub fn sext128(x: u128, w: u32) -> i128 {
	if w == 0 || w >= 128 {
		x as i128
	} else {
		((x << (128 - w)) as i128) >> (128 - w)
	}
}

fn binop(w: &str) -> Option<Op> {
	Some(match w {
		"add" => Op::Add,
		"sub" => Op::Sub,
		"mul" => Op::Mul,
		"udiv" => Op::UDiv,
		"sdiv" => Op::SDiv,
		"urem" => Op::URem,
		"srem" => Op::SRem,
		"and" => Op::And,
		"or" => Op::Or,
		"xor" => Op::Xor,
		"shl" => Op::Shl,
		"lshr" => Op::LShr,
		"ashr" => Op::AShr,
		_ => return None,
	})
}

const FLAGS: &[&str] = &[
	"nuw", "nsw", "exact", "inbounds", "nusw", "disjoint", "nneg", "samesign", "volatile", "atomic", "tail", "musttail", "notail",
	"fastcc", "ccc", "coldcc", "weak",
];

pub fn parse(text: &str) -> Result<Module, String> {
	let mut m = Module::default();
	let mut types: HashMap<String, Ty> = HashMap::new();
	let lines: Vec<&str> = text.lines().collect();
	// attribute groups with noreturn
	let mut noret: HashMap<String, bool> = HashMap::new();
	for l in &lines {
		if let Some(r) = l.strip_prefix("attributes #") {
			let n: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
			let nr = r.split_whitespace().any(|w| w == "noreturn");
			noret.insert(n, nr);
		}
	}
	// named types (iterate until fixpoint for forward refs)
	let tdefs: Vec<&str> = lines.iter().filter(|l| l.starts_with('%') && l.contains(" = type ")).copied().collect();
	for _ in 0..8 {
		for l in &tdefs {
			let t = lex(l);
			let name = match &t[0] {
				Tok::L(n) => n.clone(),
				_ => continue,
			};
			let mut p = P { t: &t, i: 3, types: &types, regs: None };
			if let Ok(ty) = p.ty() {
				types.insert(name, ty);
			}
		}
	}
	let mut i = 0;
	while i < lines.len() {
		let l = lines[i];
		if l.starts_with('@') {
			parse_global(l, &types, &mut m).map_err(|e| format!("global: {}: {}", e, l))?;
			i += 1;
		} else if l.starts_with("define ") {
			let mut j = i + 1;
			while lines[j] != "}" {
				j += 1;
			}
			let f = parse_func(&lines[i..j], &types, &noret)?;
			m.fidx.insert(f.name.clone(), m.funcs.len() as u32);
			m.funcs.push(f);
			i = j + 1;
		} else if l.starts_with("declare ") {
			let t = lex(l);
			let mut name = String::new();
			let mut nr = false;
			for k in &t {
				match k {
					Tok::G(n) if name.is_empty() => name = n.clone(),
					Tok::Attr(a) => nr |= *noret.get(a).unwrap_or(&false),
					_ => {},
				}
			}
			if !m.fidx.contains_key(&name) {
				m.fidx.insert(name.clone(), m.funcs.len() as u32);
				m.funcs.push(Func { name, params: vec![], blocks: vec![], nregs: 0, noreturn: nr, declared: true });
			}
			i += 1;
		} else if l.starts_with('!') {
			if let Some(eq) = l.find(" = ") {
				if let Ok(n) = l[1..eq].parse::<u32>() {
					m.meta.insert(n, l[eq + 3..].to_string());
				}
			}
			i += 1;
		} else {
			i += 1;
		}
	}
	Ok(m)
}

fn parse_global(l: &str, types: &HashMap<String, Ty>, m: &mut Module) -> R<()> {
	let t = lex(l);
	let name = match &t[0] {
		Tok::G(n) => n.clone(),
		_ => return Err("name".into()),
	};
	let mut p = P { t: &t, i: 1, types, regs: None };
	p.expp('=')?;
	let mut external = false;
	let mut constant = false;
	let mut alias = false;
	loop {
		match p.next()? {
			Tok::W(w) => match w.as_str() {
				"external" | "extern_weak" => external = true,
				"global" => break,
				"constant" => {
					constant = true;
					break;
				},
				"alias" => {
					alias = true;
					break;
				},
				"ifunc" => return Ok(()),
				_ => {
					if p.isp('(') {
						p.skip_parens()?;
					}
				},
			},
			t => return Err(format!("{:?}", t)),
		}
	}
	let ty = p.ty()?;
	if alias {
		p.expp(',')?;
		let t2 = p.ty()?;
		let c = p.constant(&t2)?;
		m.globals.push(GlobalVar { name, ty, init: None, constant, alias_of: Some(c) });
		return Ok(());
	}
	let init = if external { None } else { Some(p.constant(&ty)?) };
	m.globals.push(GlobalVar { name, ty, init, constant, alias_of: None });
	Ok(())
}

fn block_label(l: &str) -> Option<String> {
	// "name:   ; preds = ..." at column 0
	let b = l.as_bytes();
	if b.is_empty() || b[0] == b' ' || b[0] == b';' {
		return None;
	}
	if b[0] == b'"' {
		let e = l[1..].find('"')? + 1;
		if l[e + 1..].starts_with(':') {
			return Some(l[1..e].to_string());
		}
		return None;
	}
	let e = l.find(':')?;
	Some(l[..e].to_string())
}

fn parse_func(lines: &[&str], types: &HashMap<String, Ty>, noret: &HashMap<String, bool>) -> R<Func> {
	let head = lex(lines[0]);
	let mut regs: HashMap<String, u32> = HashMap::new();
	let gi = head.iter().position(|t| matches!(t, Tok::G(_))).ok_or("fn name")?;
	let name = match &head[gi] {
		Tok::G(n) => n.clone(),
		_ => unreachable!(),
	};
	let mut params = vec![];
	let mut p = P { t: &head, i: gi + 1, types, regs: Some(&mut regs) };
	p.expp('(')?;
	let mut unnamed = 0u32;
	while !p.eatp(')') {
		if matches!(p.peek(), Some(Tok::Ellipsis)) {
			p.i += 1;
			continue;
		}
		let t = p.ty()?;
		loop {
			match p.peek() {
				Some(Tok::L(n)) => {
					let n = n.clone();
					p.i += 1;
					let r = p.reg(&n)?;
					params.push((t.clone(), r));
					break;
				},
				Some(Tok::P(',')) | Some(Tok::P(')')) => {
					let n = format!("{}", unnamed);
					unnamed += 1;
					let r = p.reg(&n)?;
					params.push((t.clone(), r));
					break;
				},
				Some(Tok::W(w)) => {
					let w = w.clone();
					p.i += 1;
					if p.isp('(') {
						p.skip_parens()?;
					} else if w == "align" {
						p.i += 1;
					}
				},
				x => return Err(format!("param {:?}", x)),
			}
		}
		p.eatp(',');
	}
	let mut nr = false;
	let mut k = p.i;
	while k < head.len() {
		if let Tok::Attr(a) = &head[k] {
			nr |= *noret.get(a).unwrap_or(&false);
		}
		k += 1;
	}
	// split in blocks, joining switch lines
	let mut blocks: Vec<Block> = vec![];
	let mut bidx: HashMap<String, u32> = HashMap::new();
	let mut body: Vec<Vec<String>> = vec![];
	let mut j = 1;
	while j < lines.len() {
		let l = lines[j];
		j += 1;
		if l.trim().is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with("#dbg") {
			continue;
		}
		if let Some(lb) = block_label(l) {
			bidx.insert(lb.clone(), blocks.len() as u32);
			blocks.push(Block { name: lb, ..Default::default() });
			body.push(vec![]);
			continue;
		}
		if blocks.is_empty() {
			let lb = format!("{}", params.len());
			bidx.insert(lb.clone(), 0);
			blocks.push(Block { name: lb, ..Default::default() });
			body.push(vec![]);
		}
		let mut s = l.to_string();
		if s.trim_start().starts_with("switch ") {
			while !s.contains(']') {
				s.push(' ');
				s.push_str(lines[j]);
				j += 1;
			}
		} else if s.contains(" landingpad ") || s.contains(" invoke ") || s.trim_start().starts_with("invoke ") {
			while j < lines.len() && lines[j].starts_with("          ") {
				s.push(' ');
				s.push_str(lines[j].trim());
				j += 1;
			}
		}
		body.last_mut().unwrap().push(s);
	}
	for (bi, ls) in body.iter().enumerate() {
		for l in ls {
			let t = lex(l);
			let dbg = find_dbg(&t);
			match parse_inst(&t, types, &mut regs, &bidx) {
				Ok(Parsed::Inst(inst)) => {
					blocks[bi].insts.push(inst);
					blocks[bi].dbg.push(dbg);
				},
				Ok(Parsed::Phi(d, ty, v)) => blocks[bi].phis.push((d, ty, v)),
				Ok(Parsed::Skip) => {},
				Err(e) => {
					blocks[bi].insts.push(Inst::Unsupported(format!("{}: {}", e, l.trim())));
					blocks[bi].dbg.push(dbg);
				},
			}
		}
	}
	Ok(Func { name, params, blocks, nregs: regs.len() as u32, noreturn: nr, declared: false })
}

fn find_dbg(t: &[Tok]) -> u32 {
	let mut i = 0;
	while i + 1 < t.len() {
		if let Tok::Md(m) = &t[i] {
			if m == "dbg" {
				if let Tok::Md(n) = &t[i + 1] {
					return n.parse().unwrap_or(0);
				}
			}
		}
		i += 1;
	}
	0
}

enum Parsed {
	Inst(Inst),
	Phi(u32, Ty, Vec<(Opnd, u32)>),
	Skip,
}

fn parse_inst(t: &[Tok], types: &HashMap<String, Ty>, regs: &mut HashMap<String, u32>, blocks: &HashMap<String, u32>) -> R<Parsed> {
	let mut p = P { t, i: 0, types, regs: Some(regs) };
	let mut dst = None;
	if let (Some(Tok::L(n)), Some(Tok::P('='))) = (t.get(0), t.get(1)) {
		let n = n.clone();
		dst = Some(p.reg(&n)?);
		p.i = 2;
	}
	let d = dst.unwrap_or(u32::MAX);
	p.skip_flags(&["tail", "musttail", "notail"])?;
	let op = match p.next()? {
		Tok::W(w) => w,
		k => return Err(format!("inst {:?}", k)),
	};
	if let Some(b) = binop(&op) {
		p.skip_flags(FLAGS)?;
		let ty = p.ty()?;
		let a = p.value(&ty)?;
		p.expp(',')?;
		let c = p.value(&ty)?;
		return Ok(Parsed::Inst(Inst::Bin { dst: d, op: b, ty, a, b: c }));
	}
	let inst = match op.as_str() {
		"alloca" => {
			p.eatw("inalloca");
			let ty = p.ty()?;
			let mut count = Opnd::Imm(1);
			if p.eatp(',') && !p.isw("align") {
				let (_, v) = p.tyval()?;
				count = v;
			}
			Inst::Alloca { dst: d, size: ty.size(), count }
		},
		"load" => {
			p.skip_flags(FLAGS)?;
			let ty = p.ty()?;
			p.expp(',')?;
			let (_, ptr) = p.tyval()?;
			Inst::Load { dst: d, ty, ptr }
		},
		"store" => {
			p.skip_flags(FLAGS)?;
			let (ty, val) = p.tyval()?;
			p.expp(',')?;
			let (_, ptr) = p.tyval()?;
			Inst::Store { ty, val, ptr }
		},
		"getelementptr" => {
			p.skip_flags(FLAGS)?;
			if p.eatw("inrange") {
				p.skip_parens()?;
			}
			let ty = p.ty()?;
			p.expp(',')?;
			let (_, base) = p.tyval()?;
			let mut off: i64 = 0;
			let mut idx = vec![];
			let mut cur = ty;
			let mut first = true;
			while p.eatp(',') {
				if matches!(p.peek(), Some(Tok::Md(_))) {
					break;
				}
				let (it, iv) = p.tyval()?;
				let scale;
				if first {
					scale = cur.size() as i64;
					first = false;
				} else {
					match &cur {
						Ty::Struct(..) => {
							let k = match iv {
								Opnd::Imm(x) => x as usize,
								_ => return Err("gep struct idx".into()),
							};
							off += cur.field_offset(k) as i64;
							let e = cur.elem(k).clone();
							cur = e;
							continue;
						},
						_ => {
							let e = cur.elem(0).clone();
							scale = e.size() as i64;
							cur = e;
						},
					}
				}
				match iv {
					Opnd::Imm(x) => off += sext128(x, it.bits()) as i64 * scale,
					v => idx.push((v, it.bits(), scale)),
				}
			}
			Inst::Gep { dst: d, base, off, idx }
		},
		"icmp" => {
			p.skip_flags(FLAGS)?;
			let pr = match p.next()? {
				Tok::W(w) => match w.as_str() {
					"eq" => Pred::Eq,
					"ne" => Pred::Ne,
					"ugt" => Pred::Ugt,
					"uge" => Pred::Uge,
					"ult" => Pred::Ult,
					"ule" => Pred::Ule,
					"sgt" => Pred::Sgt,
					"sge" => Pred::Sge,
					"slt" => Pred::Slt,
					"sle" => Pred::Sle,
					_ => return Err(format!("pred {}", w)),
				},
				_ => return Err("pred".into()),
			};
			let ty = p.ty()?;
			let a = p.value(&ty)?;
			p.expp(',')?;
			let b = p.value(&ty)?;
			Inst::Icmp { dst: d, p: pr, ty, a, b }
		},
		"select" => {
			p.skip_flags(FLAGS)?;
			let (cty, c) = p.tyval()?;
			p.expp(',')?;
			let (ty, a) = p.tyval()?;
			p.expp(',')?;
			let (_, b) = p.tyval()?;
			Inst::Select { dst: d, c, cty, ty, a, b }
		},
		"zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
			p.skip_flags(FLAGS)?;
			let (from, a) = p.tyval()?;
			if !p.eatw("to") {
				return Err("to".into());
			}
			let to = p.ty()?;
			let k = match op.as_str() {
				"zext" => CastK::Zext,
				"sext" => CastK::Sext,
				"trunc" => CastK::Trunc,
				"bitcast" => CastK::Bit,
				_ => {
					if from.bits() <= to.bits() {
						CastK::Zext
					} else {
						CastK::Trunc
					}
				},
			};
			Inst::Cast { dst: d, k, from, to, a }
		},
		"freeze" => {
			let (_, a) = p.tyval()?;
			Inst::Freeze { dst: d, a }
		},
		"extractvalue" => {
			let (_, a) = p.tyval()?;
			let mut path = vec![];
			while p.eatp(',') {
				if matches!(p.peek(), Some(Tok::Md(_))) {
					break;
				}
				path.push(p.num()? as u32);
			}
			Inst::Extract { dst: d, a, path }
		},
		"insertvalue" => {
			let (aty, a) = p.tyval()?;
			p.expp(',')?;
			let (_, v) = p.tyval()?;
			let mut path = vec![];
			while p.eatp(',') {
				if matches!(p.peek(), Some(Tok::Md(_))) {
					break;
				}
				path.push(p.num()? as u32);
			}
			Inst::Insert { dst: d, aty, a, v, path }
		},
		"extractelement" => {
			let (_, a) = p.tyval()?;
			p.expp(',')?;
			let (_, i) = p.tyval()?;
			Inst::ExtractElt { dst: d, a, i }
		},
		"insertelement" => {
			let (vty, a) = p.tyval()?;
			p.expp(',')?;
			let (_, v) = p.tyval()?;
			p.expp(',')?;
			let (_, i) = p.tyval()?;
			Inst::InsertElt { dst: d, vty, a, v, i }
		},
		"shufflevector" => {
			let (vty, a) = p.tyval()?;
			p.expp(',')?;
			let (_, b) = p.tyval()?;
			p.expp(',')?;
			let mty = p.ty()?;
			let c = p.constant(&mty)?;
			let mask = match c {
				Const::Agg(v) => v
					.iter()
					.map(|(_, c)| match c {
						Const::Int(x) => *x as i64,
						_ => -1,
					})
					.collect(),
				_ => vec![0; mty.nelem()],
			};
			Inst::Shuffle { dst: d, vty, a, b, mask }
		},
		"phi" => {
			p.skip_flags(FLAGS)?;
			let ty = p.ty()?;
			let mut v = vec![];
			loop {
				p.expp('[')?;
				let x = p.value(&ty)?;
				p.expp(',')?;
				let b = match p.next()? {
					Tok::L(n) => *blocks.get(&n).ok_or("phi block")?,
					_ => return Err("phi".into()),
				};
				p.expp(']')?;
				v.push((x, b));
				if !p.eatp(',') {
					break;
				}
				if matches!(p.peek(), Some(Tok::Md(_))) {
					break;
				}
			}
			return Ok(Parsed::Phi(d, ty, v));
		},
		"br" => {
			if p.isw("label") {
				Inst::Br(p.label(blocks)?)
			} else {
				let (_, c) = p.tyval()?;
				p.expp(',')?;
				let a = p.label(blocks)?;
				p.expp(',')?;
				let b = p.label(blocks)?;
				Inst::CondBr(c, a, b)
			}
		},
		"switch" => {
			let (ty, v) = p.tyval()?;
			p.expp(',')?;
			let def = p.label(blocks)?;
			p.expp('[')?;
			let mut cases = vec![];
			while !p.eatp(']') {
				let t2 = p.ty()?;
				let c = match p.constant(&t2)? {
					Const::Int(x) => x,
					_ => return Err("switch const".into()),
				};
				p.expp(',')?;
				let b = p.label(blocks)?;
				cases.push((c, b));
			}
			Inst::Switch { ty, v, def, cases }
		},
		"ret" => {
			if p.eatw("void") {
				Inst::Ret(None)
			} else {
				let (t, v) = p.tyval()?;
				Inst::Ret(Some((t, v)))
			}
		},
		"unreachable" => Inst::Unreachable,
		"fence" => return Ok(Parsed::Skip),
		"call" | "invoke" => {
			// call [cc] [ret attrs] <ty> [fnty] callee(args) [attrs]
			loop {
				let save = p.i;
				if matches!(p.peek(), Some(Tok::W(_))) {
					if p.ty().is_ok() {
						p.i = save;
						break;
					}
					p.i = save + 1;
					if p.isp('(') {
						p.skip_parens()?;
					} else if matches!(&t[save], Tok::W(w) if w == "align") {
						p.i += 1;
					}
				} else {
					break;
				}
			}
			let ret = p.ty()?;
			if p.isp('(') {
				p.skip_parens()?; // function type for varargs
			}
			let callee = match p.peek() {
				Some(Tok::G(n)) => {
					let n = n.clone();
					p.i += 1;
					Callee::Name(n)
				},
				Some(Tok::L(n)) => {
					let n = n.clone();
					p.i += 1;
					Callee::Ind(Opnd::Reg(p.reg(&n)?))
				},
				Some(Tok::W(w)) if w == "asm" => return Err("asm".into()),
				x => return Err(format!("callee {:?}", x)),
			};
			if let Callee::Name(n) = &callee {
				if n.starts_with("llvm.dbg")
					|| n.starts_with("llvm.lifetime")
					|| n.starts_with("llvm.experimental.noalias")
					|| n.starts_with("llvm.assume")
					|| n.starts_with("llvm.invariant")
					|| n.starts_with("llvm.donothing")
				{
					return Ok(Parsed::Skip);
				}
			}
			p.expp('(')?;
			let mut args = vec![];
			while !p.eatp(')') {
				args.push(p.tyval()?);
				p.eatp(',');
			}
			let mut next = None;
			if op == "invoke" {
				while !p.isw("to") {
					p.i += 1;
				}
				p.i += 1;
				next = Some(p.label(blocks)?);
			}
			Inst::Call { dst, ret, callee, args, next }
		},
		"landingpad" | "resume" => Inst::Unreachable,
		"atomicrmw" => {
			p.skip_flags(FLAGS)?;
			let o = match p.next()? {
				Tok::W(w) => w,
				_ => return Err("rmw".into()),
			};
			let (_, ptr) = p.tyval()?;
			p.expp(',')?;
			let (ty, val) = p.tyval()?;
			Inst::AtomicRmw { dst: d, op: o, ty, ptr, val }
		},
		"cmpxchg" => {
			p.skip_flags(FLAGS)?;
			let (_, ptr) = p.tyval()?;
			p.expp(',')?;
			let (ty, cmp) = p.tyval()?;
			p.expp(',')?;
			let (_, new) = p.tyval()?;
			Inst::CmpXchg { dst: d, ty, ptr, cmp, new }
		},
		_ => return Err("unsupported".into()),
	};
	Ok(Parsed::Inst(inst))
}
