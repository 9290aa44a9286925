//! Runtime interface: symbolic (LLVM IR, `extern` intrinsics) or native (replay of one concrete input).

#[cfg(not(feature = "native"))]
mod imp {
	mod ext {
		extern "C" {
			pub fn symx_any() -> u8;
			pub fn symx_choose(n: u32) -> u32;
			pub fn symx_assume(c: bool);
			pub fn symx_assert(c: bool, id: u32);
			pub fn symx_cover(id: u32);
			pub fn symx_obs(v: u64);
			pub fn symx_param(i: u32) -> u32;
			pub fn symx_allow_panic(on: bool);
			pub fn symx_alloc(size: usize, align: usize) -> *mut u8;
			pub fn symx_free(p: *mut u8, size: usize);
			pub fn symx_panic() -> !;
			pub fn symx_concrete(v: u64) -> u64;
			pub fn symx_try(f: extern "C" fn(*mut u8), p: *mut u8) -> bool;
			pub fn symx_irq(f: Option<extern "C" fn()>);
		}
	}
	#[inline(always)]
	pub fn any_u8() -> u8 {
		unsafe { ext::symx_any() }
	}
	#[inline(always)]
	pub fn choose(n: u32) -> u32 {
		unsafe { ext::symx_choose(n) }
	}
	#[inline(always)]
	pub fn assume(c: bool) {
		unsafe { ext::symx_assume(c) }
	}
	#[inline(always)]
	pub fn check(c: bool, id: u32, _text: &str) {
		unsafe { ext::symx_assert(c, id) }
	}
	#[inline(always)]
	pub fn cover(id: u32) {
		unsafe { ext::symx_cover(id) }
	}
	/// The same value, decided by enumeration (one path for each).
	#[inline(always)]
	pub fn concrete(v: usize) -> usize {
		unsafe { ext::symx_concrete(v as u64) as usize }
	}
	#[inline(always)]
	pub fn obs(v: u64) {
		unsafe { ext::symx_obs(v) }
	}
	#[inline(always)]
	pub fn param(i: u32) -> usize {
		unsafe { ext::symx_param(i) as usize }
	}
	/// From here on (until turned off) a panic ends the path without being a violation.
	#[inline(always)]
	pub fn allow_panic(on: bool) {
		unsafe { ext::symx_allow_panic(on) }
	}
	/// Run `f`; `None` if it panics.
	pub fn attempt<R, F: FnOnce() -> R>(f: F) -> Option<R> {
		struct S<F, R> {
			f: Option<F>,
			r: Option<R>,
		}
		extern "C" fn run<F: FnOnce() -> R, R>(p: *mut u8) {
			let s = unsafe { &mut *(p as *mut S<F, R>) };
			if let Some(f) = s.f.take() {
				s.r = Some(f());
			}
		}
		let mut s = S { f: Some(f), r: None };
		let panicked = unsafe { ext::symx_try(run::<F, R>, &mut s as *mut S<F, R> as *mut u8) };
		if panicked {
			None
		} else {
			s.r
		}
	}
	/// Run `f`, with `handler` run at most once in between, at any access to static memory.
	pub fn interrupted<R>(handler: extern "C" fn(), f: impl FnOnce() -> R) -> R {
		unsafe { ext::symx_irq(Some(handler)) };
		let r = f();
		unsafe { ext::symx_irq(None) };
		r
	}

	struct A;
	unsafe impl core::alloc::GlobalAlloc for A {
		unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
			ext::symx_alloc(l.size(), l.align())
		}
		unsafe fn dealloc(&self, p: *mut u8, l: core::alloc::Layout) {
			ext::symx_free(p, l.size())
		}
	}
	#[global_allocator]
	static ALLOC: A = A;

	#[panic_handler]
	fn panic(_: &core::panic::PanicInfo) -> ! {
		unsafe { ext::symx_panic() }
	}
}

/// Replay of one concrete input against the natively compiled code.
#[cfg(feature = "native")]
mod imp {
	use std::cell::RefCell;
	#[derive(Default)]
	pub struct Replay {
		pub input: Vec<u8>,
		pub pos: usize,
		pub params: Vec<u32>,
		pub obs: Vec<u64>,
		pub covers: Vec<u32>,
		pub allow_panic: bool,
		/// Panics are expected and caught.
		pub catching: bool,
		/// In a child process that looks for a violation: report nothing else.
		pub child: bool,
	}
	thread_local! {
		pub static R: RefCell<Replay> = RefCell::new(Replay::default());
	}
	pub fn report(outcome: &str, detail: &str) {
		R.with(|r| {
			let r = r.borrow();
			if r.child && !matches!(outcome, "assert" | "panic") {
				return;
			}
			let o: Vec<String> = r.obs.iter().map(|x| x.to_string()).collect();
			println!("outcome {}", outcome);
			println!("obs {}", o.join(","));
			println!("detail {}", detail);
		});
	}
	pub fn any_u8() -> u8 {
		R.with(|r| {
			let mut r = r.borrow_mut();
			let p = r.pos;
			r.pos += 1;
			r.input.get(p).copied().unwrap_or(0)
		})
	}
	pub fn choose(n: u32) -> u32 {
		let v = any_u8() as u32;
		if v >= n {
			report("infeasible", "choice out of range");
			std::process::exit(3);
		}
		v
	}
	pub fn assume(c: bool) {
		if !c {
			report("infeasible", "assumption does not hold");
			std::process::exit(3);
		}
	}
	pub fn check(c: bool, id: u32, text: &str) {
		if !c {
			report("assert", &format!("assertion {}: {}", id, text));
			std::process::exit(1);
		}
	}
	pub fn cover(id: u32) {
		R.with(|r| r.borrow_mut().covers.push(id))
	}
	pub fn concrete(v: usize) -> usize {
		v
	}
	pub fn obs(v: u64) {
		R.with(|r| r.borrow_mut().obs.push(v))
	}
	pub fn param(i: u32) -> usize {
		R.with(|r| r.borrow().params.get(i as usize).copied().unwrap_or(0) as usize)
	}
	pub fn allow_panic(on: bool) {
		R.with(|r| r.borrow_mut().allow_panic = on)
	}
	pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
		let old = R.with(|r| std::mem::replace(&mut r.borrow_mut().catching, true));
		let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
		R.with(|r| r.borrow_mut().catching = old);
		v
	}
	/// Tries every instruction of `f` as the place of the interrupt, each in a child process that carries on from there.
	pub fn interrupted<T>(handler: extern "C" fn(), f: impl FnOnce() -> T) -> T {
		#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
		{
			use super::trap;
			for n in 1..20_000 {
				match unsafe { trap::fork() } {
					0 => {
						R.with(|r| r.borrow_mut().child = true);
						unsafe { trap::start(n, handler) };
						let v = f();
						unsafe { trap::stop() };
						return v;
					},
					pid => match unsafe { trap::wait(pid) } {
						// found: the child has reported it
						Some(code @ (1 | 101)) => std::process::exit(code),
						Some(trap::NOT_REACHED) => break,
						_ => (),
					},
				}
			}
		}
		f()
	}
}

/// Single-stepping of the own process.
#[cfg(all(feature = "native", target_arch = "x86_64", target_os = "linux"))]
mod trap {
	use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
	extern "C" {
		pub fn fork() -> i32;
		fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
		fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
		fn alarm(seconds: u32) -> u32;
	}
	#[repr(C)]
	struct SigAction {
		handler: usize,
		mask: [u64; 16],
		flags: i32,
		restorer: usize,
	}
	pub const NOT_REACHED: i32 = 77;
	const TF: u64 = 0x100;
	static LEFT: AtomicI64 = AtomicI64::new(0);
	static HANDLER: AtomicUsize = AtomicUsize::new(0);
	static ACTIVE: AtomicBool = AtomicBool::new(false);

	unsafe extern "C" fn on_trap(_sig: i32, _info: *mut u8, context: *mut u8) {
		// the flags register in the saved context
		let flags = context.add(40 + 17 * 8) as *mut u64;
		if !ACTIVE.load(Ordering::SeqCst) {
			*flags &= !TF;
			return;
		}
		if LEFT.fetch_sub(1, Ordering::SeqCst) == 1 {
			*flags &= !TF;
			let f: extern "C" fn() = std::mem::transmute(HANDLER.load(Ordering::SeqCst));
			f();
		}
	}
	pub unsafe fn wait(pid: i32) -> Option<i32> {
		let mut status = 0;
		waitpid(pid, &mut status, 0);
		(status & 0x7f == 0).then_some(status >> 8 & 0xff)
	}
	pub unsafe fn start(n: i64, handler: extern "C" fn()) {
		alarm(10);
		LEFT.store(n, Ordering::SeqCst);
		HANDLER.store(handler as usize, Ordering::SeqCst);
		ACTIVE.store(true, Ordering::SeqCst);
		// SA_SIGINFO
		let action = SigAction { handler: on_trap as usize, mask: [0; 16], flags: 4, restorer: 0 };
		sigaction(5, &action, std::ptr::null_mut());
		std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
	}
	pub unsafe fn stop() {
		ACTIVE.store(false, Ordering::SeqCst);
		std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
		if LEFT.load(Ordering::SeqCst) > 0 {
			std::process::exit(NOT_REACHED);
		}
	}
	/// A panic has begun: no interrupt from here on.
	pub fn panicking() {
		ACTIVE.store(false, Ordering::SeqCst);
	}
}
#[cfg(feature = "native")]
pub fn on_panic() {
	#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
	trap::panicking();
}
pub use imp::*;

pub fn any_u16() -> u16 {
	let a = any_u8() as u16;
	a | (any_u8() as u16) << 8
}
pub fn any_u32() -> u32 {
	let a = any_u16() as u32;
	a | (any_u16() as u32) << 16
}
pub fn any_u64() -> u64 {
	let a = any_u32() as u64;
	a | (any_u32() as u64) << 32
}
pub fn any_u128() -> u128 {
	let a = any_u64() as u128;
	a | (any_u64() as u128) << 64
}
/// A value in `lo..=hi`, decided by enumeration (one path each).
pub fn pick(lo: usize, hi: usize) -> usize {
	let n = hi - lo + 1;
	if n <= 256 {
		return lo + choose(n as u32) as usize;
	}
	let block = choose(((n + 255) / 256) as u32) as usize * 256;
	let rest = n - block;
	lo + block + choose(if rest < 256 { rest } else { 256 } as u32) as usize
}
pub fn fill_any(b: &mut [u8]) {
	for x in b.iter_mut() {
		*x = any_u8();
	}
}
/// Branch-free slice equality.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let mut d = 0u8;
	for i in 0..a.len() {
		d |= a[i] ^ b[i];
	}
	d == 0
}
pub fn obs_bytes(b: &[u8]) {
	obs(b.len() as u64);
	for x in b {
		obs(*x as u64);
	}
}
