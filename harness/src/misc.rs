//! Checksum and static buffers.

use crate::rt::*;
use crate::spec;
use dynamixel2::checksum::calculate_checksum as crc;

/// The checksum of `param(0)` arbitrary bytes with an arbitrary initial value.
#[no_mangle]
pub extern "C" fn h_crc() {
	let n = param(0);
	let mut x = [0u8; 320];
	fill_any(&mut x[..n]);
	let init = any_u16();
	let c = crc(init, &x[..n]);
	obs(c as u64);
	check(c == spec::crc(init, &x[..n]), 1, "the checksum is the CRC-16 of the protocol");
	cover(1);
}

/// Checksums of the parts of `param(0)` bytes, split anywhere, give the checksum of the whole.
#[no_mangle]
pub extern "C" fn h_crc_parts() {
	let n = param(0);
	let mut x = [0u8; 320];
	fill_any(&mut x[..n]);
	let init = any_u16();
	let k = pick(0, n);
	let c = crc(crc(init, &x[..k]), &x[k..n]);
	check(c == crc(init, &x[..n]), 1, "the checksum can be computed in parts");
	// a message followed by its own checksum, most significant byte first, has checksum 0
	let y = [(c >> 8) as u8, c as u8];
	check(crc(c, &y) == 0, 2, "the checksum divides the message it is appended to");
	cover(1);
}

/// Two messages of `param(0)` bytes that differ in an odd number of bits, or in two bits, or within 16 adjacent bits,
/// have different checksums.
#[no_mangle]
pub extern "C" fn h_crc_detect() {
	let (n, kind) = (param(0), param(1));
	let mut x = [0u8; 320];
	fill_any(&mut x[..n]);
	let mut y = x;
	let at = pick(0, n - 1);
	match kind {
		0 => {
			// three adjacent bytes, within 16 bits
			let d = [any_u8(), any_u8(), any_u8()];
			let v = (d[0] as u32) << 16 | (d[1] as u32) << 8 | d[2] as u32;
			let mut short = false;
			for s in 0..=8 {
				short |= v & !(0xFFFFu32 << s) & 0xFF_FFFF == 0;
			}
			assume(short & (d[0] != 0));
			for j in 0..3 {
				if at + j < n {
					y[at + j] ^= d[j];
				} else {
					assume(d[j] == 0);
				}
			}
		},
		1 => {
			// two bits
			let (a, b) = (any_u8(), any_u8());
			let one = |v: u8| (v != 0) & (v & v.wrapping_sub(1) == 0);
			let other = pick(at, n - 1);
			if other == at {
				assume(one(a) & one(b) & (a != b));
			} else {
				assume(one(a) & one(b));
			}
			y[at] ^= a;
			y[other] ^= b;
		},
		_ => {
			// an odd number of bits
			let mut all = 0;
			for j in 0..n {
				let d = any_u8();
				y[j] ^= d;
				all ^= d;
			}
			let all = all ^ all >> 4;
			let all = all ^ all >> 2;
			let all = all ^ all >> 1;
			assume(all & 1 == 1);
		},
	}
	check(crc(0, &x[..n]) != crc(0, &y[..n]), 1, "the checksum detects the damage");
	cover(1);
}

fn site(k: u32) -> &'static mut [u8] {
	match k {
		0 => site0(),
		1 => dynamixel2::static_buffer!(8),
		_ => dynamixel2::static_buffer!(16),
	}
}
fn site0() -> &'static mut [u8] {
	dynamixel2::static_buffer!(8)
}

/// Use the buffer of one place; `None` if that panics.
fn take(k: u32) -> Option<&'static mut [u8]> {
	attempt(|| site(k))
}

/// `param(0)` uses of static buffers at three places, in any order: every place gives its buffer once, and panics then;
/// no two buffers share memory.
#[no_mangle]
pub extern "C" fn h_static() {
	let mut used = [false; 3];
	let mut bufs: [Option<&'static mut [u8]>; 3] = [None, None, None];
	for step in 0..param(0) {
		let k = choose(3);
		let i = k as usize;
		let Some(b) = take(k) else {
			check(used[i], 5, "a static buffer is given out the first time");
			cover(2);
			continue;
		};
		check(!used[i], 1, "a static buffer is given out once");
		used[i] = true;
		check(b.len() == [8, 8, 16][i], 2, "a static buffer has the size that was asked for");
		for x in b.iter_mut() {
			check(*x == 0, 3, "a static buffer starts out with zeros, and shares no memory with another");
			*x = 0x80 + step as u8;
		}
		bufs[i] = Some(b);
		for (j, o) in bufs.iter().enumerate() {
			if let Some(o) = o {
				let v = o[0];
				check(o.iter().all(|x| *x == v) && (j == i) == (v == 0x80 + step as u8), 4, "static buffers share no memory");
			}
		}
		cover(1);
	}
}

/// What the interrupt handler does, and what it got.
static mut IRQ_SITE: u32 = 0;
static mut IRQ_RAN: bool = false;
static mut IRQ_GOT: Option<(usize, usize)> = None;

extern "C" fn irq() {
	unsafe {
		IRQ_RAN = true;
		IRQ_GOT = take(IRQ_SITE).map(|b| (b.as_ptr() as usize, b.len()));
	}
}

/// `param(0)` uses of static buffers, and then one that is interrupted anywhere by another.
#[no_mangle]
pub extern "C" fn h_static_irq() {
	let mut used = [false; 3];
	for _ in 0..param(0) {
		let k = choose(3);
		check(take(k).is_some() != used[k as usize], 1, "a static buffer is given out once");
		used[k as usize] = true;
	}
	let (a, b) = (choose(3), choose(3));
	unsafe { IRQ_SITE = b };
	let got = interrupted(irq, || take(a)).map(|b| (b.as_ptr() as usize, b.len()));
	let (ran, got2) = unsafe { (IRQ_RAN, IRQ_GOT) };
	if !ran {
		check(got.is_some() != used[a as usize], 1, "a static buffer is given out once");
		return;
	}
	if a == b {
		if used[a as usize] {
			check(got.is_none() & got2.is_none(), 1, "a static buffer is given out once");
			cover(1);
		} else {
			check(got.is_some() as u8 + got2.is_some() as u8 == 1, 2, "a static buffer is given out once, also when interrupted");
			cover(2);
		}
	} else {
		check(got.is_some() != used[a as usize], 1, "a static buffer is given out once");
		check(got2.is_some() != used[b as usize], 1, "a static buffer is given out once");
		if let (Some((p, n)), Some((q, m))) = (got, got2) {
			check((p + n <= q) | (q + m <= p), 3, "static buffers share no memory");
			cover(3);
		}
	}
}
