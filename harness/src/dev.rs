//! The device side: what an instruction packet is decoded to.

use crate::ops::*;
use crate::rt::*;
use crate::spec::{self, Bytes};
use crate::world::*;
use core::time::Duration;
use dynamixel2::*;

/// A decoded instruction, in a uniform shape.
#[derive(Clone, Copy)]
pub struct Dec {
	pub id: u8,
	pub kind: u8,
	pub a: u16,
	pub b: u16,
	pub sub: u8,
	pub raw: u8,
	pub data: Bytes,
}
impl Dec {
	fn new(id: u8, kind: u8) -> Dec {
		Dec { id, kind, a: 0, b: 0, sub: 0, raw: 0, data: Bytes::new() }
	}
	fn same(&self, o: &Dec) -> bool {
		(self.kind == o.kind)
			&& (self.sub == o.sub)
			&& (self.id == o.id) & (self.a == o.a) & (self.b == o.b) & (self.raw == o.raw) & eq(self.data.s(), o.data.s())
	}
	fn obs(&self) {
		obs(self.id as u64);
		obs(self.kind as u64);
		obs(self.a as u64);
		obs(self.b as u64);
		obs(self.sub as u64);
		obs(self.raw as u64);
		obs_bytes(self.data.s());
	}
}
pub const UNKNOWN: u8 = 0;

pub fn show<T: AsRef<[u8]>>(i: Instruction<T>) -> Dec {
	let mut d = Dec::new(i.id, 0);
	let mut wr = |k, a, x: &[u8]| {
		d.kind = k;
		d.a = a;
		d.data.put(x);
	};
	match i.instruction {
		Instructions::Ping => d.kind = spec::PING,
		Instructions::Read { address, length } => {
			wr(spec::READ, address, &[]);
			d.b = length;
		},
		Instructions::Write { address, parameters } => wr(spec::WRITE, address, parameters.as_ref()),
		Instructions::RegWrite { address, parameters } => wr(spec::REG_WRITE, address, parameters.as_ref()),
		Instructions::Action => d.kind = spec::ACTION,
		Instructions::FactoryReset(f) => {
			d.kind = spec::FACTORY_RESET;
			match f {
				FactoryReset::All => d.sub = 1,
				FactoryReset::ExceptId => d.sub = 2,
				FactoryReset::ExceptIdBaudRate => d.sub = 3,
				FactoryReset::Unknown(x) => {
					d.sub = 4;
					d.raw = x;
				},
			}
		},
		Instructions::Reboot => d.kind = spec::REBOOT,
		Instructions::Clear(c) => {
			d.kind = spec::CLEAR;
			match c {
				Clear::MultiTurns => d.sub = 1,
				Clear::Errors => d.sub = 2,
				Clear::Reserved(x) => {
					d.sub = 3;
					d.raw = x;
				},
			}
		},
		Instructions::SyncRead { address, length, ids } => {
			wr(spec::SYNC_READ, address, ids.as_ref());
			d.b = length;
		},
		Instructions::SyncWrite { address, length, parameters } => {
			wr(spec::SYNC_WRITE, address, parameters.as_ref());
			d.b = length;
		},
		Instructions::BulkRead { parameters } => wr(spec::BULK_READ, 0, parameters.as_ref()),
		Instructions::BulkWrite { parameters } => wr(spec::BULK_WRITE, 0, parameters.as_ref()),
		Instructions::Unknown { instruction, parameters } => {
			wr(UNKNOWN, 0, parameters.as_ref());
			d.raw = instruction;
		},
	}
	d
}

/// Reference: what the protocol says the packet means, or the count error.
pub fn meaning(id: u8, ins: u8, p: &[u8]) -> Result<Dec, R> {
	let n = p.len();
	let a = if n >= 2 { p[0] as u16 | (p[1] as u16) << 8 } else { 0 };
	let b = if n >= 4 { p[2] as u16 | (p[3] as u16) << 8 } else { 0 };
	let mut d = Dec::new(id, ins);
	let exact = |k: usize| if n == k { Ok(()) } else { Err(R::Count { actual: n, kind: 0, expected: k }) };
	let least = |k: usize| if n >= k { Ok(()) } else { Err(R::Count { actual: n, kind: 2, expected: k }) };
	match ins {
		spec::PING | spec::ACTION | spec::REBOOT => {},
		spec::READ => {
			exact(4)?;
			d.a = a;
			d.b = b;
		},
		spec::WRITE | spec::REG_WRITE => {
			least(2)?;
			d.a = a;
			d.data.put(&p[2..]);
		},
		spec::FACTORY_RESET => {
			exact(1)?;
			match p[0] {
				0xFF => d.sub = 1,
				1 => d.sub = 2,
				2 => d.sub = 3,
				x => {
					d.sub = 4;
					d.raw = x;
				},
			}
		},
		spec::CLEAR => {
			least(1)?;
			match p[0] {
				1 => d.sub = 1,
				2 => d.sub = 2,
				x => {
					d.sub = 3;
					d.raw = x;
				},
			}
		},
		spec::SYNC_READ | spec::SYNC_WRITE => {
			least(4)?;
			d.a = a;
			d.b = b;
			d.data.put(&p[4..]);
		},
		spec::BULK_READ | spec::BULK_WRITE => d.data.put(p),
		x => {
			d.kind = UNKNOWN;
			d.raw = x;
			d.data.put(p);
		},
	}
	Ok(d)
}

fn read(d: &mut Device<Port, &mut [u8]>, owned: bool) -> Result<Dec, R> {
	let t = Duration::from_millis(20);
	if owned {
		d.read_owned(t).map(show).map_err(rerr)
	} else {
		d.read(t).map(show).map_err(rerr)
	}
}
fn agree(got: &Result<Dec, R>, want: &Result<Dec, R>) {
	match (got, want) {
		(Ok(g), Ok(w)) => {
			g.obs();
			check(g.same(w), 1, "an instruction packet is decoded to what the protocol says it means");
			cover(1);
		},
		(Err(g), Err(w)) => {
			g.obs();
			check(g.same(w), 2, "an instruction with a wrong number of parameters is reported with both counts");
			cover(2);
		},
		(Ok(_), Err(_)) => check(false, 3, "an instruction with a wrong number of parameters is refused"),
		(Err(e), Ok(_)) => {
			e.obs();
			check(false, 4, "a well-formed instruction is accepted");
		},
	}
}

/// An instruction packet with `param(0)` arbitrary parameters and instruction `param(1)` (256: any other than status),
/// behind `param(2)` status packets, read `param(3)` (0 borrowed, 1 owned), chunks `param(4)`.
#[no_mangle]
pub extern "C" fn h_dev_decode() {
	let (n, pre, owned, mode) = (param(0), param(2), param(3) == 1, param(4));
	let w = World::new();
	for _ in 0..pre {
		w.feed(spec::status(any_u8(), any_u8(), &[any_u8()]).s());
	}
	let id = any_u8();
	let ins = if param(1) > 255 {
		let i = any_u8();
		assume(i != spec::STATUS);
		i
	} else {
		param(1) as u8
	};
	let mut p = Bytes::new();
	for _ in 0..n {
		p.push(any_u8());
	}
	w.feed(spec::frame(id, ins, p.s()).s());
	crate::recv::chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 96], [0u8; 64]);
	let mut d = w.device(&mut r, &mut b);
	let got = read(&mut d, owned);
	agree(&got, &meaning(id, ins, p.s()));
	check(w.m().deadlines == 1 && !w.m().wrong_deadline, 5, "one deadline holds for the whole read");
	let again = read(&mut d, owned);
	check(matches!(again, Err(R::Io(E::Timeout))), 6, "an instruction is delivered once");
	check(w.m().writes == 0, 7, "reading an instruction transmits nothing");
}

/// What a client operation transmits is decoded by the device to the operation with its arguments.
#[no_mangle]
pub extern "C" fn h_dev_ops() {
	let (op, owned) = (param(0), param(1) == 1);
	let w = World::new();
	let id = any_u8();
	let a = Args::any(op, id);
	let (ins, p, _) = wire(op, &a);
	{
		let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
		let mut c = w.client(&mut r, &mut b);
		run(op, &mut c, &a);
	}
	let v = World::new();
	v.feed(w.sent());
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut d = v.device(&mut r, &mut b);
	let got = read(&mut d, owned);
	agree(&got, &meaning(id, ins, p.s()));
	check(got.is_ok(), 8, "a device accepts every instruction of a client");
}

/// Multi-motor instructions, from the client to the device: `param(0)` 0 sync read, 1 sync write, 2 bulk read,
/// 3 bulk write, each for two motors.
#[no_mangle]
pub extern "C" fn h_dev_multi() {
	use dynamixel2::instructions::*;
	let (kind, owned) = (param(0), param(1) == 1);
	let w = World::new();
	let (i, j) = (any_u8(), any_u8());
	let (a1, a2, x, y) = (any_u16(), any_u16(), any_u8(), any_u8());
	let mut want = Dec::new(spec::BROADCAST, 0);
	{
		let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
		let mut c = w.client(&mut r, &mut b);
		match kind {
			0 => {
				if let Ok(it) = c.sync_read_bytes::<alloc::vec::Vec<u8>>(&[i, j], a1, a2) {
					core::mem::forget(it);
				}
				want.kind = spec::SYNC_READ;
				want.a = a1;
				want.b = a2;
				want.data.put(&[i, j]);
			},
			1 => {
				let _ = c.sync_write(a1, &[SyncWriteData { motor_id: i, data: x }, SyncWriteData { motor_id: j, data: y }]);
				want.kind = spec::SYNC_WRITE;
				want.a = a1;
				want.b = 1;
				want.data.put(&[i, x, j, y]);
			},
			2 => {
				assume(i != j);
				let v = [BulkReadData { motor_id: i, address: a1, count: x as u16 }, BulkReadData { motor_id: j, address: a2, count: y as u16 }];
				if let Ok(it) = c.bulk_read_bytes::<alloc::vec::Vec<u8>>(&v) {
					core::mem::forget(it);
				}
				want.kind = spec::BULK_READ;
				for e in v {
					want.data.push(e.motor_id);
					want.data.le16(e.address);
					want.data.le16(e.count);
				}
			},
			_ => {
				assume(i != j);
				let _ = c.bulk_write(&[BulkWriteData { motor_id: i, address: a1, data: [x] }, BulkWriteData { motor_id: j, address: a2, data: [y] }]);
				want.kind = spec::BULK_WRITE;
				for (m, a, d) in [(i, a1, x), (j, a2, y)] {
					want.data.push(m);
					want.data.le16(a);
					want.data.le16(1);
					want.data.push(d);
				}
			},
		}
	}
	let v = World::new();
	v.feed(w.sent());
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut d = v.device(&mut r, &mut b);
	agree(&read(&mut d, owned), &Ok(want));
}

/// Arbitrary bytes read by a device, decoded: no panic, no endless loop. `param(0)` bytes behind `param(1)` bytes of a
/// header, chunks `param(2)`, owned `param(3)`, size of the read buffer `param(4)`.
#[no_mangle]
pub extern "C" fn h_dev_rob() {
	let (n, pre, mode, owned, cap) = (param(0), param(1), param(2), param(3) == 1, param(4));
	let w = World::new();
	w.feed(&[0xFF, 0xFF, 0xFD, 0x00][..pre]);
	w.feed_any(n);
	crate::recv::chunk(&w, mode);
	let (mut r, mut b) = ([0u8; 64], [0u8; 64]);
	let mut d = w.device(&mut r[..cap], &mut b);
	for _ in 0..3 {
		match read(&mut d, owned) {
			Ok(d) => {
				d.obs();
				cover(1);
			},
			Err(e) => {
				e.obs();
				cover(2);
				if e.is_timeout() {
					break;
				}
			},
		}
	}
	cover(3);
}
