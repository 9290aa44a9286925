//! The single-motor operations of the client, in a uniform shape, with what the protocol says they transmit.

use crate::rt::*;
use crate::spec::{self, Bytes};
use crate::world::*;
use alloc::vec::Vec;
use dynamixel2::instructions::{FactoryResetKind, Ping};
use dynamixel2::*;

pub type C<'a, 'b> = Client<Port<'a>, &'b mut [u8]>;

/// Every outcome of an operation.
#[derive(Clone, Copy)]
pub enum R {
	Ok { id: u8, alert: bool, data: [u8; 16], n: usize },
	Motor(u8),
	Crc { message: u16, computed: u16 },
	Id { actual: u8, expected: Option<u8> },
	Instr { actual: u8, expected: u8 },
	/// kind: 0 exact, 1 max, 2 min
	Count { actual: usize, kind: u8, expected: usize },
	Header,
	Full { required: usize, total: usize },
	Io(E),
	WSmall { required: usize, total: usize },
	WDiscard(E),
	WWrite(E),
	/// An iterator that has ended.
	End,
}

pub fn count(c: InvalidParameterCount) -> R {
	let (kind, expected) = match c.expected {
		ExpectedCount::Exact(x) => (0, x),
		ExpectedCount::Max(x) => (1, x),
		ExpectedCount::Min(x) => (2, x),
	};
	R::Count { actual: c.actual, kind, expected }
}
pub fn rerr(e: ReadError<E>) -> R {
	match e {
		ReadError::BufferFull(b) => R::Full { required: b.required_size, total: b.total_size },
		ReadError::Io(e) => R::Io(e),
		ReadError::MotorError(m) => R::Motor(m.raw),
		ReadError::InvalidMessage(m) => match m {
			InvalidMessage::InvalidHeaderPrefix(_) => R::Header,
			InvalidMessage::InvalidChecksum(c) => R::Crc { message: c.message, computed: c.computed },
			InvalidMessage::InvalidPacketId(i) => R::Id { actual: i.actual, expected: i.expected },
			InvalidMessage::InvalidInstruction(i) => R::Instr { actual: i.actual, expected: i.expected },
			InvalidMessage::InvalidParameterCount(c) => count(c),
		},
	}
}
pub fn werr(e: WriteError<E>) -> R {
	match e {
		WriteError::BufferTooSmall(b) => R::WSmall { required: b.required_size, total: b.total_size },
		WriteError::DiscardBuffer(e) => R::WDiscard(e),
		WriteError::Write(e) => R::WWrite(e),
	}
}
pub fn terr(e: TransferError<E>) -> R {
	match e {
		TransferError::WriteError(e) => werr(e),
		TransferError::ReadError(e) => rerr(e),
	}
}
pub fn ok(id: u8, alert: bool, d: &[u8]) -> R {
	let mut data = [0; 16];
	let n = d.len();
	data[..n].copy_from_slice(d);
	R::Ok { id, alert, data, n }
}
pub fn unit(r: Result<Response<()>, TransferError<E>>) -> R {
	match r {
		Ok(r) => ok(r.motor_id, r.alert, &[]),
		Err(e) => terr(e),
	}
}
pub fn num<const N: usize, T>(r: Result<Response<T>, TransferError<E>>, f: fn(T) -> [u8; N]) -> R {
	match r {
		Ok(r) => ok(r.motor_id, r.alert, &f(r.data)),
		Err(e) => terr(e),
	}
}
pub fn ping(r: Result<Response<Ping>, TransferError<E>>) -> R {
	match r {
		Ok(r) => {
			let m = r.data.model.to_le_bytes();
			ok(r.motor_id, r.alert, &[m[0], m[1], r.data.firmware])
		},
		Err(e) => terr(e),
	}
}
pub fn wres(r: Result<(), WriteError<E>>) -> R {
	match r {
		Ok(()) => ok(spec::BROADCAST, false, &[]),
		Err(e) => werr(e),
	}
}

impl R {
	pub fn is_ok(&self) -> bool {
		matches!(self, R::Ok { .. })
	}
	pub fn is_timeout(&self) -> bool {
		matches!(self, R::Io(E::Timeout))
	}
	pub fn obs(&self) {
		match *self {
			R::Ok { id, alert, data, n } => {
				obs(1);
				obs(id as u64);
				obs(alert as u64);
				obs_bytes(&data[..n]);
			},
			R::Motor(r) => {
				obs(2);
				obs(r as u64);
			},
			R::Crc { message, computed } => {
				obs(3);
				obs(message as u64);
				obs(computed as u64);
			},
			R::Id { actual, .. } => {
				obs(4);
				obs(actual as u64);
			},
			R::Instr { actual, .. } => {
				obs(5);
				obs(actual as u64);
			},
			R::Count { actual, .. } => {
				obs(6);
				obs(actual as u64);
			},
			R::Header => obs(7),
			R::Full { required, .. } => {
				obs(8);
				obs(required as u64);
			},
			R::Io(_) => obs(9),
			R::WSmall { required, .. } => {
				obs(10);
				obs(required as u64);
			},
			R::WDiscard(_) => obs(11),
			R::WWrite(_) => obs(12),
			R::End => obs(13),
		}
	}
	/// Equality of outcomes (branches on the kind only).
	pub fn same(&self, o: &R) -> bool {
		match (*self, *o) {
			(R::Ok { id, alert, data, n }, R::Ok { id: i, alert: a, data: d, n: m }) => (id == i) & (alert == a) & (n == m) & eq(&data, &d),
			(R::Motor(a), R::Motor(b)) => a == b,
			(R::Crc { message, computed }, R::Crc { message: m, computed: c }) => (message == m) & (computed == c),
			(R::Id { actual, expected }, R::Id { actual: a, expected: e }) => (actual == a) & (expected == e),
			(R::Instr { actual, expected }, R::Instr { actual: a, expected: e }) => (actual == a) & (expected == e),
			(R::Count { actual, kind, expected }, R::Count { actual: a, kind: k, expected: e }) => (actual == a) & (kind == k) & (expected == e),
			(R::Header, R::Header) => true,
			(R::Full { required, total }, R::Full { required: r, total: t }) => (required == r) & (total == t),
			(R::Io(a), R::Io(b)) => a == b,
			(R::WSmall { required, total }, R::WSmall { required: r, total: t }) => (required == r) & (total == t),
			(R::WDiscard(a), R::WDiscard(b)) => a == b,
			(R::WWrite(a), R::WWrite(b)) => a == b,
			(R::End, R::End) => true,
			_ => false,
		}
	}
}

#[derive(Clone, Copy)]
pub struct Args {
	pub id: u8,
	pub addr: u16,
	pub v: [u8; 16],
}
impl Args {
	/// Any arguments of operation `op`; of values of 16 bytes, the bytes in the middle are fixed.
	pub fn any(op: usize, id: u8) -> Args {
		let addr = any_u16();
		let mut v = [0; 16];
		for i in 0..16 {
			v[i] = if (op == 41 || op == 49) && i >= 3 && i < 13 { 0x30 + i as u8 } else { any_u8() };
		}
		Args { id, addr, v }
	}
	/// Arguments of which only the ID matters.
	pub fn plain(id: u8) -> Args {
		Args { id, addr: 0x1234, v: [0x21, 0x32, 0x43, 0x54, 0x65, 0x76, 0x87, 0x98, 0xa9, 0xba, 0xcb, 0xdc, 0xed, 0xfe, 0x0f, 0x10] }
	}
	pub fn u16(&self) -> u16 {
		u16::from_le_bytes([self.v[0], self.v[1]])
	}
	fn u16_at(&self, i: usize) -> u16 {
		u16::from_le_bytes([self.v[i], self.v[i + 1]])
	}
	pub fn u32(&self) -> u32 {
		u32::from_le_bytes([self.v[0], self.v[1], self.v[2], self.v[3]])
	}
	pub fn u64(&self) -> u64 {
		let mut b = [0; 8];
		b.copy_from_slice(&self.v[..8]);
		u64::from_le_bytes(b)
	}
}

pub const OPS: usize = 55;

/// Perform operation number `op`.
pub fn run(op: usize, c: &mut C, a: &Args) -> R {
	let (id, addr) = (a.id, a.addr);
	match op {
		0 => ping(c.ping(id)),
		1 => num(c.read::<u8>(id, addr), |x| x.to_le_bytes()),
		2 => num(c.read::<u16>(id, addr), |x| x.to_le_bytes()),
		3 => num(c.read::<u32>(id, addr), |x| x.to_le_bytes()),
		4 => num(c.read::<u64>(id, addr), |x| x.to_le_bytes()),
		5 => num(c.read::<i16>(id, addr), |x| x.to_le_bytes()),
		6 => num(c.read::<[u8; 3]>(id, addr), |x| x),
		7 => num(c.read::<[u16; 2]>(id, addr), |x| {
			let (a, b) = (x[0].to_le_bytes(), x[1].to_le_bytes());
			[a[0], a[1], b[0], b[1]]
		}),
		8 => match c.read_bytes::<Vec<u8>>(id, addr, 3) {
			Ok(r) => {
				// the harness' record has a fixed capacity
				check(r.data.len() <= 16, 993, "more data than was asked for");
				ok(r.motor_id, r.alert, &r.data)
			},
			Err(e) => terr(e),
		},
		9 => match c.read_bytes::<&[u8]>(id, addr, 5) {
			Ok(r) => {
				check(r.data.len() <= 16, 993, "more data than was asked for");
				ok(r.motor_id, r.alert, r.data)
			},
			Err(e) => terr(e),
		},
		10 => unit(c.write::<u8>(id, addr, &a.v[0])),
		11 => unit(c.write::<u16>(id, addr, &a.u16())),
		12 => unit(c.write::<u32>(id, addr, &a.u32())),
		13 => unit(c.write::<u64>(id, addr, &a.u64())),
		14 => unit(c.write::<i32>(id, addr, &(a.u32() as i32))),
		15 => unit(c.write::<[u8; 3]>(id, addr, &[a.v[0], a.v[1], a.v[2]])),
		16 => unit(c.write_bytes(id, addr, &a.v[..5])),
		17 => unit(c.reg_write::<u8>(id, addr, &a.v[0])),
		18 => unit(c.reg_write::<u16>(id, addr, &a.u16())),
		19 => unit(c.reg_write::<u32>(id, addr, &a.u32())),
		20 => unit(c.reg_write::<[u8; 3]>(id, addr, &[a.v[0], a.v[1], a.v[2]])),
		21 => unit(c.reg_write_bytes(id, addr, &a.v[..4])),
		22 => unit(c.action(id)),
		23 => unit(c.reboot(id)),
		24 => unit(c.factory_reset(id, FactoryResetKind::ResetAll)),
		25 => unit(c.factory_reset(id, FactoryResetKind::KeepId)),
		26 => unit(c.factory_reset(id, FactoryResetKind::KeepIdAndBaudRate)),
		27 => unit(c.clear_revolution_counter(id)),
		28 => unit(c.clear_error(id)),
		29 => num(c.read::<u128>(id, addr), |x| x.to_le_bytes()),
		30 => unit(c.write_bytes(id, addr, &[])),
		31 => unit(c.reg_write_bytes(id, addr, &[])),
		32 => num(c.read::<i8>(id, addr), |x| x.to_le_bytes()),
		33 => num(c.read::<i64>(id, addr), |x| x.to_le_bytes()),
		34 => unit(c.reg_write::<u64>(id, addr, &a.u64())),
		35 => match c.read::<crate::sync::Mine>(id, addr) {
			Ok(r) => ok(r.motor_id, r.alert, &r.data.0),
			Err(e) => terr(e),
		},
		36 => num(c.read::<i32>(id, addr), |x| x.to_le_bytes()),
		37 => num(c.read::<i128>(id, addr), |x| x.to_le_bytes()),
		38 => num(c.read::<[u8; 0]>(id, addr), |x| x),
		39 => num(c.read::<[[u8; 2]; 2]>(id, addr), |[[a, b], [c, d]]| [a, b, c, d]),
		40 => match c.read_bytes::<&[u8]>(id, addr, 0) {
			Ok(r) => {
				check(r.data.len() == 0, 992, "more data than was asked for");
				ok(r.motor_id, r.alert, &[])
			},
			Err(e) => terr(e),
		},
		41 => unit(c.write::<u128>(id, addr, &u128::from_le_bytes(a.v))),
		42 => unit(c.write::<i8>(id, addr, &(a.v[0] as i8))),
		43 => unit(c.write::<i16>(id, addr, &(a.u16() as i16))),
		44 => unit(c.write::<i64>(id, addr, &(a.u64() as i64))),
		45 => unit(c.write::<[u16; 2]>(id, addr, &[a.u16(), a.u16_at(2)])),
		46 => unit(c.write::<crate::sync::Mine>(id, addr, &crate::sync::Mine([a.v[0], a.v[1]]))),
		47 => unit(c.write::<[u16; 0]>(id, addr, &[])),
		48 => unit(c.write::<[[u8; 2]; 2]>(id, addr, &[[a.v[0], a.v[1]], [a.v[2], a.v[3]]])),
		49 => unit(c.reg_write::<i128>(id, addr, &(u128::from_le_bytes(a.v) as i128))),
		50 => unit(c.reg_write::<i32>(id, addr, &(a.u32() as i32))),
		51 => unit(c.reg_write::<[u16; 2]>(id, addr, &[a.u16(), a.u16_at(2)])),
		52 => unit(c.reg_write::<crate::sync::Mine>(id, addr, &crate::sync::Mine([a.v[0], a.v[1]]))),
		53 => unit(c.reg_write::<[u16; 0]>(id, addr, &[])),
		54 => unit(c.reg_write::<i8>(id, addr, &(a.v[0] as i8))),
		_ => R::End,
	}
}

/// Instruction, parameters and number of parameters of the reply, according to the protocol.
pub fn wire(op: usize, a: &Args) -> (u8, Bytes, usize) {
	let mut p = Bytes::new();
	let mut rd = |n: usize| {
		p.le16(a.addr);
		p.le16(n as u16);
		(spec::READ, n)
	};
	let (ins, n) = match op {
		0 => (spec::PING, 3),
		1 | 32 => rd(1),
		2 | 5 | 35 => rd(2),
		3 | 7 | 36 | 39 => rd(4),
		4 | 33 => rd(8),
		6 | 8 => rd(3),
		9 => rd(5),
		29 | 37 => rd(16),
		38 | 40 => rd(0),
		10..=16 | 30 | 41..=48 => {
			p.le16(a.addr);
			p.put(&a.v[..match op {
				10 | 42 => 1,
				11 | 43 | 46 => 2,
				12 | 14 | 45 | 48 => 4,
				13 | 44 => 8,
				15 => 3,
				16 => 5,
				41 => 16,
				_ => 0,
			}]);
			(spec::WRITE, 0)
		},
		17..=21 | 31 | 34 | 49..=54 => {
			p.le16(a.addr);
			p.put(&a.v[..match op {
				17 | 54 => 1,
				18 | 52 => 2,
				20 => 3,
				19 | 21 | 50 | 51 => 4,
				34 => 8,
				49 => 16,
				_ => 0,
			}]);
			(spec::REG_WRITE, 0)
		},
		22 => (spec::ACTION, 0),
		23 => (spec::REBOOT, 0),
		24..=26 => {
			p.push([0xFF, 0x01, 0x02][op - 24]);
			(spec::FACTORY_RESET, 0)
		},
		27 => {
			p.put(&[0x01, 0x44, 0x58, 0x4C, 0x22]);
			(spec::CLEAR, 0)
		},
		28 => {
			p.put(&[0x02, 0x45, 0x52, 0x43, 0x4C]);
			(spec::CLEAR, 0)
		},
		_ => (0, 0),
	};
	(ins, p, n)
}

/// Is `r` what a reply with these contents, to an operation that addressed `id` and expects `n` parameters, may give?
pub fn judge(r: &R, id: u8, n: usize, reply_id: u8, reply_err: u8, reply: &[u8], base: u32) {
	let right_id = reply_id == id;
	let no_error = reply_err & 0x7F == 0;
	let right_n = reply.len() == n;
	match *r {
		R::Ok { id: i, alert, data, n: m } => {
			check(right_id, base, "a reply is accepted only if it carries the ID of the addressed motor");
			check(no_error, base + 1, "a reply is accepted only if it reports no error");
			check(right_n, base + 2, "a reply is accepted only if it has the expected number of parameters");
			check(i == reply_id, base + 3, "the response names the motor that replied");
			check(alert == (reply_err & 0x80 != 0), base + 4, "the alert flag is bit 7 of the error field");
			check(m == n && eq(&data[..m], reply), base + 5, "the response data are the parameters of the reply");
		},
		_ => {
			check(!(right_id & no_error & right_n), base + 6, "the reply of the addressed motor is accepted");
			match *r {
				R::Motor(e) => check(!no_error & (e == reply_err), base + 7, "a motor error carries the error field of the reply"),
				R::Id { actual, expected } => check(
					!right_id & (actual == reply_id) & (expected == Some(id)),
					base + 8,
					"an ID error names the IDs received and expected",
				),
				R::Count { actual, kind, expected } => check(
					!right_n & (actual == reply.len()) & (kind == 0) & (expected == n),
					base + 9,
					"a parameter count error names the counts received and expected",
				),
				_ => check(false, base + 10, "a well-formed status reply gives a response, a motor error, an ID error or a count error"),
			}
		},
	}
}
