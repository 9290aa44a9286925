//! Linking: resolve names and constants of a parsed module into an executable program.

use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

pub const FN_BASE: u64 = 0x7e00_0000_0000_0000;
pub const OBJ_OFF: u64 = 0x4000_0000;

pub fn obj_base(id: u32) -> u64 {
	((id as u64 + 1) << 32) + OBJ_OFF
}

pub struct Program {
	pub funcs: Vec<Func>,
	pub fidx: HashMap<String, u32>,
	/// initial contents of globals; object id = index. None = external (unknown contents).
	pub globals: Vec<(String, Option<Vec<u8>>, u64, bool)>,
	pub meta: HashMap<u32, String>,
}

struct Linker {
	gaddr: HashMap<String, u64>,
}

impl Linker {
	fn eval(&self, c: &Const, ty: &Ty) -> Result<u128, String> {
		Ok(match c {
			Const::Int(x) => *x,
			Const::Null | Const::Undef | Const::Zero => 0,
			Const::Global(g) => *self.gaddr.get(g).ok_or(format!("global @{}", g))? as u128,
			Const::Gep(b, t, idx) => {
				let base = self.eval(b, &Ty::Ptr)? as u64;
				let mut off: i64 = 0;
				let mut cur = t.clone();
				for (k, i) in idx.iter().enumerate() {
					if k == 0 {
						off += *i as i64 * cur.size() as i64;
					} else {
						off += cur.field_offset(*i as usize) as i64;
						cur = cur.elem(*i as usize).clone();
					}
				}
				base.wrapping_add(off as u64) as u128
			},
			Const::Cast(c) => self.eval(c, ty)?,
			Const::Bin(op, w, a, b) => {
				let x = self.eval(a, ty)?;
				let y = self.eval(b, ty)?;
				let r = match op {
					Op::Add => x.wrapping_add(y),
					Op::Sub => x.wrapping_sub(y),
					Op::Mul => x.wrapping_mul(y),
					Op::And => x & y,
					Op::Or => x | y,
					Op::Xor => x ^ y,
					Op::Shl => x << y,
					Op::LShr => x >> y,
					_ => return Err("const bin".into()),
				};
				mask(r, *w)
			},
			_ => return Err(format!("scalar const {:?}", c)),
		})
	}
	fn bytes(&self, c: &Const, ty: &Ty, out: &mut [u8]) -> Result<(), String> {
		match c {
			Const::Undef | Const::Zero | Const::Null => {},
			Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
			Const::Agg(v) => {
				for (i, (t, c)) in v.iter().enumerate() {
					let o = ty.field_offset(i) as usize;
					let s = t.size() as usize;
					self.bytes(c, t, &mut out[o..o + s])?;
				}
			},
			_ => {
				let x = self.eval(c, ty)?;
				let n = ty.store_size() as usize;
				out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
			},
		}
		Ok(())
	}
	fn cval(&self, c: &Const, ty: &Ty) -> Result<CVal, String> {
		if ty.is_scalar() {
			return Ok(CVal::I(self.eval(c, ty)?));
		}
		Ok(match c {
			Const::Undef | Const::Zero | Const::Null => {
				CVal::A((0..ty.nelem()).map(|i| self.cval(c, ty.elem(i))).collect::<Result<_, _>>()?)
			},
			Const::Agg(v) => CVal::A(v.iter().map(|(t, c)| self.cval(c, t)).collect::<Result<_, _>>()?),
			Const::Bytes(b) => CVal::A(b.iter().map(|x| CVal::I(*x as u128)).collect()),
			_ => return Err(format!("agg const {:?}", c)),
		})
	}
	fn opnd(&self, o: &mut Opnd) -> Result<(), String> {
		if let Opnd::Const(b) = o {
			let (ty, c) = &**b;
			let v = self.cval(c, ty)?;
			*o = match v {
				CVal::I(x) => Opnd::Imm(x),
				v => Opnd::AggC(Arc::new(v)),
			};
		}
		Ok(())
	}
}

fn intrinsic(n: &str) -> Option<Intr> {
	use Intr::*;
	Some(match n {
		"symx_any" => SAny,
		"symx_choose" => SChoose,
		"symx_assume" => SAssume,
		"symx_assert" => SAssert,
		"symx_cover" => SCover,
		"symx_obs" => SObs,
		"symx_param" => SParam,
		"symx_allow_panic" => SAllowPanic,
		"symx_alloc" => SAlloc,
		"symx_free" => SFree,
		"symx_panic" => SPanic,
		"symx_try" => STry,
		"symx_irq" => SIrq,
		"symx_concrete" => SConcrete,
		"symx_mark" => SMark,
		"bcmp" | "memcmp" => Bcmp,
		"memcpy" | "memmove" => Memcpy,
		"memset" => Memset,
		_ => {
			let r = n.strip_prefix("llvm.")?;
			let base: String = r.split('.').take_while(|p| !(p.len() > 1 && (p.starts_with('i') || p.starts_with('p') || p.starts_with('v')) && p[1..].chars().next().unwrap().is_ascii_digit())).collect::<Vec<_>>().join(".");
			match base.as_str() {
				"memcpy" | "memmove" | "memcpy.inline" => Memcpy,
				"memset" | "memset.inline" => Memset,
				"umin" => Umin,
				"umax" => Umax,
				"smin" => Smin,
				"smax" => Smax,
				"uadd.sat" => UaddSat,
				"usub.sat" => UsubSat,
				"sadd.sat" => SaddSat,
				"ssub.sat" => SsubSat,
				"uadd.with.overflow" => UaddO,
				"usub.with.overflow" => UsubO,
				"umul.with.overflow" => UmulO,
				"sadd.with.overflow" => SaddO,
				"ssub.with.overflow" => SsubO,
				"smul.with.overflow" => SmulO,
				"ctpop" => Ctpop,
				"ctlz" => Ctlz,
				"cttz" => Cttz,
				"bswap" => Bswap,
				"bitreverse" => Bitreverse,
				"fshl" => Fshl,
				"fshr" => Fshr,
				"abs" => Abs,
				"ucmp" => Ucmp,
				"scmp" => Scmp,
				"expect" | "expect.with.probability" => Expect,
				"trap" | "ubsantrap" => Trap,
				"is.constant" => IsConstant,
				"ptrmask" => Ptrmask,
				"assume" | "lifetime.start" | "lifetime.end" | "sideeffect" | "prefetch" | "va_start" | "va_end" => Nop,
				_ => return None,
			}
		},
	})
}

pub fn link(m: Module) -> Result<Program, String> {
	let mut gaddr = HashMap::new();
	let mut id = 0u32;
	for g in &m.globals {
		if g.alias_of.is_none() {
			gaddr.insert(g.name.clone(), obj_base(id));
			id += 1;
		}
	}
	for (i, f) in m.funcs.iter().enumerate() {
		gaddr.insert(f.name.clone(), FN_BASE + 16 * i as u64);
	}
	let mut lk = Linker { gaddr };
	for _ in 0..4 {
		for g in &m.globals {
			if let Some(c) = &g.alias_of {
				if let Ok(v) = lk.eval(c, &Ty::Ptr) {
					lk.gaddr.insert(g.name.clone(), v as u64);
				}
			}
		}
	}
	let mut globals = vec![];
	for g in &m.globals {
		if g.alias_of.is_some() {
			continue;
		}
		let size = g.ty.size();
		let data = match &g.init {
			Some(c) => {
				let mut b = vec![0u8; size as usize];
				lk.bytes(c, &g.ty, &mut b).map_err(|e| format!("init of {}: {}", g.name, e))?;
				Some(b)
			},
			None => None,
		};
		globals.push((g.name.clone(), data, size, g.constant));
	}
	let mut funcs = m.funcs;
	let fidx = m.fidx;
	for f in funcs.iter_mut() {
		for b in f.blocks.iter_mut() {
			for (_, _, v) in b.phis.iter_mut() {
				for (o, _) in v {
					lk.opnd(o)?;
				}
			}
			for inst in b.insts.iter_mut() {
				let r = link_inst(&lk, inst, &fidx, &lk.gaddr);
				if let Err(e) = r {
					*inst = Inst::Unsupported(e);
				}
			}
		}
	}
	Ok(Program { funcs, fidx, globals, meta: m.meta })
}

fn link_inst(lk: &Linker, inst: &mut Inst, fidx: &HashMap<String, u32>, _g: &HashMap<String, u64>) -> Result<(), String> {
	match inst {
		Inst::Alloca { count, .. } => lk.opnd(count)?,
		Inst::Load { ptr, .. } => lk.opnd(ptr)?,
		Inst::Store { val, ptr, .. } => {
			lk.opnd(val)?;
			lk.opnd(ptr)?
		},
		Inst::Gep { base, idx, .. } => {
			lk.opnd(base)?;
			for (o, _, _) in idx {
				lk.opnd(o)?
			}
		},
		Inst::Bin { a, b, .. } | Inst::Icmp { a, b, .. } => {
			lk.opnd(a)?;
			lk.opnd(b)?
		},
		Inst::Select { c, a, b, .. } => {
			lk.opnd(c)?;
			lk.opnd(a)?;
			lk.opnd(b)?
		},
		Inst::Cast { a, .. } | Inst::Extract { a, .. } | Inst::Freeze { a, .. } => lk.opnd(a)?,
		Inst::Insert { a, v, .. } => {
			lk.opnd(a)?;
			lk.opnd(v)?
		},
		Inst::AtomicRmw { ptr, val, .. } => {
			lk.opnd(ptr)?;
			lk.opnd(val)?
		},
		Inst::CmpXchg { ptr, cmp, new, .. } => {
			lk.opnd(ptr)?;
			lk.opnd(cmp)?;
			lk.opnd(new)?
		},
		Inst::ExtractElt { a, i, .. } => {
			lk.opnd(a)?;
			lk.opnd(i)?
		},
		Inst::InsertElt { a, v, i, .. } => {
			lk.opnd(a)?;
			lk.opnd(v)?;
			lk.opnd(i)?
		},
		Inst::Shuffle { a, b, .. } => {
			lk.opnd(a)?;
			lk.opnd(b)?
		},
		Inst::CondBr(c, _, _) => lk.opnd(c)?,
		Inst::Switch { v, .. } => lk.opnd(v)?,
		Inst::Ret(Some((_, v))) => lk.opnd(v)?,
		Inst::Call { callee, args, .. } => {
			for (_, a) in args.iter_mut() {
				lk.opnd(a)?;
			}
			if let Callee::Name(n) = callee {
				if let Some(i) = intrinsic(n) {
					*callee = Callee::Intr(i);
				} else if let Some(f) = fidx.get(n) {
					*callee = Callee::Func(*f);
				} else {
					return Err(format!("unknown callee @{}", n));
				}
			}
		},
		_ => {},
	}
	Ok(())
}
