//! A client and several devices of the library on one bus: what one station transmits reaches all others. The devices are
//! run by a small firmware with eight registers each; what comes of operations of the client is compared with a model that
//! knows registers only, no packets.

use crate::rt::*;
use crate::world::E;
use alloc::vec;
use alloc::vec::Vec;
use core::time::Duration;
use dynamixel2::instructions::*;
use dynamixel2::*;

const MEM: usize = 8;
const ALL: u8 = 0xFE;

#[derive(Clone, Copy)]
struct Queue {
	b: [u8; 200],
	head: usize,
	len: usize,
}
/// The line: what every station has not read yet.
struct Line {
	q: [Queue; 4],
	stations: usize,
	chunk: usize,
	/// The devices act as soon as something is transmitted, not only when the client waits.
	eager: bool,
	room: *mut Vec<Servo>,
	reads: u32,
	busy: bool,
	/// The byte with this index is changed in what is transmitted next, or after so many other packets.
	noise: Option<(usize, u8, u8)>,
	/// A device may have received something incomprehensible.
	noisy: bool,
}
struct Tty {
	line: *mut Line,
	me: usize,
}
impl Tty {
	#[allow(clippy::mut_from_ref)]
	fn l(&self) -> &mut Line {
		unsafe { &mut *self.line }
	}
	fn work(&self) {
		let l = self.l();
		if self.me == 0 && !l.busy && !l.room.is_null() {
			l.busy = true;
			run(unsafe { &mut *l.room });
			self.l().busy = false;
		}
	}
}
impl dynamixel2::SerialPort for Tty {
	type Error = E;
	type Instant = Duration;
	fn baud_rate(&self) -> Result<u32, E> {
		Ok(1_000_000)
	}
	fn set_baud_rate(&mut self, _: u32) -> Result<(), E> {
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), E> {
		let q = &mut self.l().q[self.me];
		q.head = 0;
		q.len = 0;
		Ok(())
	}
	fn read(&mut self, buf: &mut [u8], _: &Duration) -> Result<usize, E> {
		if self.l().q[self.me].head == self.l().q[self.me].len {
			self.work();
		}
		let l = self.l();
		l.reads += 1;
		check(l.reads < 2000, 900, "the code keeps reading without ever returning");
		let q = &mut l.q[self.me];
		let mut n = q.len - q.head;
		if n == 0 {
			return Err(E::Timeout);
		}
		if n > buf.len() {
			n = buf.len();
		}
		if l.chunk > 0 && n > l.chunk {
			n = l.chunk;
		}
		buf[..n].copy_from_slice(&q.b[q.head..][..n]);
		q.head += n;
		if q.head == q.len {
			q.head = 0;
			q.len = 0;
		}
		Ok(n)
	}
	fn write_all(&mut self, b: &[u8]) -> Result<(), E> {
		let l = self.l();
		for i in 0..l.stations {
			if i != self.me {
				let q = &mut l.q[i];
				check(q.len + b.len() <= q.b.len(), 992, "more was transmitted than the harness can record");
				q.b[q.len..][..b.len()].copy_from_slice(b);
				if let Some((at, x, 0)) = l.noise {
					q.b[q.len + at] ^= x;
				}
				q.len += b.len();
			}
		}
		l.noise = match l.noise {
			Some((at, x, n)) if n > 0 => Some((at, x, n - 1)),
			_ => None,
		};
		if l.eager {
			self.work();
		}
		Ok(())
	}
	fn make_deadline(&self, t: Duration) -> Duration {
		t
	}
	fn is_timeout_error(e: &E) -> bool {
		*e == E::Timeout
	}
}

#[derive(Clone, Copy, PartialEq)]
struct Pending {
	at: usize,
	n: usize,
	d: [u8; MEM],
}
/// What a motor remembers.
#[derive(Clone, Copy)]
struct State {
	mem: [u8; MEM],
	pending: Option<Pending>,
	boots: u8,
}
impl State {
	fn fits(at: u16, n: usize) -> bool {
		at as usize + n <= MEM
	}
	fn put(&mut self, at: usize, d: &[u8]) {
		for i in 0..d.len() {
			self.mem[at + i] = d[i];
		}
	}
	fn later(&mut self, at: usize, d: &[u8]) {
		let mut p = Pending { at, n: d.len(), d: [0; MEM] };
		p.d[..d.len()].copy_from_slice(d);
		self.pending = Some(p);
	}
	fn now(&mut self) {
		if let Some(p) = self.pending.take() {
			self.put(p.at, &p.d[..p.n]);
		}
	}
	fn clear_turns(&mut self) {
		self.mem[..4].copy_from_slice(&[0; 4]);
	}
	fn same(&self, o: &State) -> bool {
		let p = match (self.pending, o.pending) {
			(None, None) => true,
			(Some(a), Some(b)) => a.at == b.at && a.n == b.n && eq(&a.d, &b.d),
			_ => false,
		};
		p && self.boots == o.boots && eq(&self.mem, &o.mem)
	}
}

struct Reply {
	turn: usize,
	err: u8,
	n: usize,
	d: [u8; MEM],
}
struct Servo {
	d: Device<Tty, Vec<u8>>,
	id: u8,
	nr: usize,
	model: u16,
	firmware: u8,
	alert: u8,
	owned: bool,
	s: State,
	reply: Option<Reply>,
}
const RANGE: u8 = 4;

/// Carry out an instruction.
fn obey<T: AsRef<[u8]>>(i: Instruction<T>, id: u8, nr: usize, about: [u8; 3], s: &mut State) -> Option<Reply> {
	let mine = i.id == id;
	if !mine && i.id != ALL {
		return None;
	}
	let mut r = Reply { turn: 0, err: 0, n: 0, d: [0; MEM] };
	let mut answer = mine;
	let mut tell = |r: &mut Reply, s: &State, at: u16, n: u16| {
		if State::fits(at, n as usize) {
			r.n = n as usize;
			r.d[..r.n].copy_from_slice(&s.mem[at as usize..][..r.n]);
		} else {
			r.err = RANGE;
		}
	};
	match i.instruction {
		Instructions::Ping => {
			r.n = 3;
			r.d[..3].copy_from_slice(&about);
			if !mine {
				answer = true;
				r.turn = nr;
			}
		},
		Instructions::Read { address, length } => tell(&mut r, s, address, length),
		Instructions::Write { address, parameters } => {
			let p = parameters.as_ref();
			if State::fits(address, p.len()) {
				s.put(address as usize, p);
			} else {
				r.err = RANGE;
			}
		},
		Instructions::RegWrite { address, parameters } => {
			let p = parameters.as_ref();
			if State::fits(address, p.len()) {
				s.later(address as usize, p);
			} else {
				r.err = RANGE;
			}
		},
		Instructions::Action => s.now(),
		Instructions::FactoryReset(k) => {
			s.mem = match k {
				FactoryReset::All => [1; MEM],
				FactoryReset::ExceptId => [2; MEM],
				FactoryReset::ExceptIdBaudRate => [3; MEM],
				FactoryReset::Unknown(_) => [4; MEM],
			}
		},
		Instructions::Reboot => {
			s.pending = None;
			s.boots += 1;
		},
		Instructions::Clear(Clear::MultiTurns) => s.clear_turns(),
		Instructions::Clear(Clear::Errors) => s.mem[7] = 0,
		Instructions::Clear(Clear::Reserved(_)) => r.err = 1,
		Instructions::SyncRead { address, length, ids } => {
			answer = false;
			let ids = ids.as_ref();
			for j in 0..ids.len() {
				if ids[j] == id {
					answer = true;
					r.turn = j;
					tell(&mut r, s, address, length);
				}
			}
		},
		Instructions::SyncWrite { address, length, parameters } => {
			let p = parameters.as_ref();
			let step = 1 + length as usize;
			let mut at = 0;
			while at + step <= p.len() {
				if p[at] == id {
					s.put(address as usize, &p[at + 1..at + step]);
				}
				at += step;
			}
		},
		Instructions::BulkRead { parameters } => {
			answer = false;
			let p = parameters.as_ref();
			for j in 0..p.len() / 5 {
				let e = &p[5 * j..][..5];
				if e[0] == id {
					answer = true;
					r.turn = j;
					tell(&mut r, s, u16::from_le_bytes([e[1], e[2]]), u16::from_le_bytes([e[3], e[4]]));
				}
			}
		},
		Instructions::BulkWrite { parameters } => {
			let p = parameters.as_ref();
			let mut at = 0;
			while at < p.len() {
				let n = u16::from_le_bytes([p[at + 3], p[at + 4]]) as usize;
				if p[at] == id {
					s.put(u16::from_le_bytes([p[at + 1], p[at + 2]]) as usize, &p[at + 5..][..n]);
				}
				at += 5 + n;
			}
		},
		Instructions::Unknown { .. } => check(false, 2, "a device knows every instruction of the client"),
	}
	if answer {
		Some(r)
	} else {
		None
	}
}

/// Let all devices read what they were sent, and reply in their turn.
fn run(room: &mut Vec<Servo>) {
	let t = Duration::from_millis(20);
	let (mut got, mut last) = (0, 0);
	for v in room.iter_mut() {
		let about = [v.model as u8, (v.model >> 8) as u8, v.firmware];
		for _ in 0..2 {
			let r = if v.owned {
				v.d.read_owned(t).map(|i| obey(i, v.id, v.nr, about, &mut v.s))
			} else {
				v.d.read(t).map(|i| obey(i, v.id, v.nr, about, &mut v.s))
			};
			match r {
				Ok(r) => {
					got += 1;
					v.reply = r;
					if let Some(r) = &v.reply {
						if r.turn > last {
							last = r.turn;
						}
					}
				},
				Err(ReadError::Io(E::Timeout)) => break,
				Err(_) => check(v.d.serial_port().l().noisy, 1, "a device understands everything it receives"),
			}
		}
	}
	check(got % room.len() == 0, 3, "every device receives every instruction once");
	for turn in 0..=last {
		for v in room.iter_mut() {
			match v.reply.take() {
				Some(r) if r.turn == turn => {
					let sent = if r.n > 0 || v.alert > 0 && r.err == 0 {
						v.d.write_status(v.id, r.err | v.alert, r.n, |b| {
							b.copy_from_slice(&r.d[..r.n]);
							Ok(())
						})
					} else if r.err == 0 {
						v.d.write_status_ok(v.id)
					} else {
						v.d.write_status_error(v.id, r.err | v.alert)
					};
					check(sent.is_ok(), 4, "a device can reply");
				},
				r => v.reply = r,
			}
		}
	}
}

struct All {
	k: usize,
	/// Nothing needs stuffing.
	calm: bool,
	ids: [u8; 3],
	models: [u16; 3],
	firmware: [u8; 3],
	alert: [bool; 3],
	/// What the motors should remember.
	s: [State; 3],
}

fn unit(r: Result<Response<()>, TransferError<E>>, id: u8, alert: bool) {
	match r {
		Ok(r) => check((r.motor_id == id) & (r.alert == alert), 20, "the response is that of the motor"),
		Err(_) => check(false, 21, "an instruction that a motor carries out succeeds"),
	}
}
fn fine<T>(r: Result<Response<T>, TransferError<E>>, id: u8, alert: bool) -> T {
	match r {
		Ok(r) => {
			check((r.motor_id == id) & (r.alert == alert), 22, "the response is that of the motor");
			r.data
		},
		Err(_) => {
			check(false, 23, "an instruction that a motor carries out succeeds");
			loop {}
		},
	}
}
fn late<T>(r: Result<Response<T>, TransferError<E>>) -> bool {
	matches!(r, Err(TransferError::ReadError(ReadError::Io(E::Timeout))))
}
fn sent(r: Result<(), WriteError<E>>) {
	check(r.is_ok(), 24, "an instruction that needs no reply succeeds");
}

/// Operation `kind` on the motors, on the bus and on the model.
fn operate(kind: usize, c: &mut Client<Tty, Vec<u8>>, m: &mut All) {
	let k = m.k;
	// only what the operation uses
	let w = match kind {
		0 | 2..=6 | 9 | 10 | 12 | 20..=22 | 24 | 25 | 27 | 28 => choose(k as u32) as usize,
		_ => 0,
	};
	let (id, alert) = (m.ids[w], m.alert[w]);
	let at = match kind {
		2..=8 | 14..=17 | 24 | 25 | 27 | 28 => [0, 3, 6][choose(3) as usize],
		_ => 0,
	};
	let mut d = [0u8; 2];
	match kind {
		4..=8 | 16 | 17 | 19 | 25 => {
			fill_any(&mut d);
			if m.calm {
				assume(d[0] != 0xFD);
				assume(d[1] != 0xFD);
			}
		},
		_ => (),
	}
	let v = u16::from_le_bytes(d);
	let a = at as u16;
	// all motors, in one of several orders
	let mut order = [0usize, 1, 2];
	if (14..=19).contains(&kind) && k > 1 {
		match choose(if k > 2 { 3 } else { 2 }) {
			0 => (),
			1 => order.swap(0, k - 1),
			_ => order.rotate_left(1),
		}
	}
	let mut ids = [0u8; 3];
	for j in 0..k {
		ids[j] = m.ids[order[j]];
	}
	let word = |s: &State, at: usize| u16::from_le_bytes([s.mem[at], s.mem[at + 1]]);
	match kind {
		0 => {
			let p = fine(c.ping(id), id, alert);
			check((p.model == m.models[w]) & (p.firmware == m.firmware[w]), 30, "a ping returns model and firmware of the motor");
		},
		1 => match c.scan() {
			Ok(mut it) => {
				for j in 0..k {
					match it.next() {
						Some(Ok(r)) => {
							check((r.motor_id == m.ids[j]) & (r.alert == m.alert[j]), 31, "a scan finds the motors");
							check((r.data.model == m.models[j]) & (r.data.firmware == m.firmware[j]), 32, "a scan returns model and firmware");
						},
						_ => check(false, 33, "a scan finds every motor"),
					}
				}
				check(it.next().is_none(), 34, "a scan finds no other motors");
			},
			Err(_) => check(false, 24, "an instruction that needs no reply succeeds"),
		},
		2 => {
			let x = fine(c.read::<u16>(id, a), id, alert);
			check(x == word(&m.s[w], at), 35, "a read returns the registers of the motor");
		},
		3 => {
			let n = choose(3) as usize;
			let x = fine(c.read_bytes::<Vec<u8>>(id, a, n as u16), id, alert);
			check(x.len() == n && eq(&x, &m.s[w].mem[at..at + n]), 36, "a read returns the registers of the motor");
		},
		4 => {
			unit(c.write(id, a, &v), id, alert);
			m.s[w].put(at, &d);
		},
		5 => {
			let n = choose(3) as usize;
			unit(c.write_bytes(id, a, &d[..n]), id, alert);
			m.s[w].put(at, &d[..n]);
		},
		6 => {
			unit(c.reg_write(id, a, &v), id, alert);
			m.s[w].later(at, &d);
		},
		7 => {
			unit(c.write(ALL, a, &v), ALL, false);
			for j in 0..k {
				m.s[j].put(at, &d);
			}
		},
		8 => {
			unit(c.reg_write_bytes(ALL, a, &d), ALL, false);
			sent(c.broadcast_action());
			for j in 0..k {
				m.s[j].pending = None;
				m.s[j].put(at, &d);
			}
		},
		9 => {
			unit(c.reboot(id), id, alert);
			m.s[w].boots += 1;
			m.s[w].pending = None;
		},
		10 => {
			let kinds = [FactoryResetKind::ResetAll, FactoryResetKind::KeepId, FactoryResetKind::KeepIdAndBaudRate];
			let x = choose(3) as usize;
			unit(c.factory_reset(id, kinds[x]), id, alert);
			m.s[w].mem = [1 + x as u8; MEM];
		},
		11 => {
			let kinds = [FactoryResetKind::ResetAll, FactoryResetKind::KeepId, FactoryResetKind::KeepIdAndBaudRate];
			let x = choose(3) as usize;
			sent(c.broadcast_factory_reset(kinds[x]));
			for j in 0..k {
				m.s[j].mem = [1 + x as u8; MEM];
			}
		},
		12 => {
			if choose(2) == 0 {
				unit(c.clear_error(id), id, alert);
				m.s[w].mem[7] = 0;
			} else {
				unit(c.clear_revolution_counter(id), id, alert);
				m.s[w].clear_turns();
			}
		},
		13 => {
			let x = choose(3);
			match x {
				0 => sent(c.broadcast_clear_error()),
				1 => sent(c.broadcast_clear_revolution_counter()),
				_ => sent(c.broadcast_reboot()),
			}
			for j in 0..k {
				match x {
					0 => m.s[j].mem[7] = 0,
					1 => m.s[j].clear_turns(),
					_ => {
						m.s[j].boots += 1;
						m.s[j].pending = None;
					},
				}
			}
		},
		14 => match c.sync_read::<u16>(&ids[..k], a) {
			Ok(mut it) => {
				let take = choose(k as u32 + 1) as usize;
				for j in 0..take {
					let o = order[j];
					match it.next() {
						Some(Ok(r)) => {
							check((r.motor_id == ids[j]) & (r.alert == m.alert[o]), 37, "the responses are those of the motors");
							check(r.data == word(&m.s[o], at), 38, "a read returns the registers of the motor");
						},
						_ => check(false, 39, "every motor responds"),
					}
				}
				if take == k {
					check(it.next().is_none(), 40, "there is one response for every motor");
				}
			},
			Err(_) => check(false, 24, "an instruction that needs no reply succeeds"),
		},
		15 => {
			// the last motor asked is not there
			let mut more = [0u8; 4];
			more[..k].copy_from_slice(&ids[..k]);
			let mut gone = 0;
			for x in [1, 2, 3, 4] {
				if gone == 0 && !m.ids[..k].contains(&x) {
					gone = x;
				}
			}
			more[k] = gone;
			let all = &more[..k + 1];
			match c.sync_read_bytes::<Vec<u8>>(all, a, 1) {
				Ok(mut it) => {
					for j in 0..k {
						match it.next() {
							Some(Ok(r)) => {
								check((r.motor_id == ids[j]) & (r.alert == m.alert[order[j]]), 37, "the responses are those of the motors");
								check(r.data.len() == 1 && r.data[0] == m.s[order[j]].mem[at], 38, "a read returns the registers of the motor");
							},
							_ => check(false, 39, "every motor responds"),
						}
					}
					check(matches!(it.next(), Some(Err(ReadError::Io(E::Timeout)))), 41, "a motor that is not there does not respond in time");
				},
				Err(_) => check(false, 24, "an instruction that needs no reply succeeds"),
			};
		},
		16 => {
			let mut x = Vec::new();
			for j in 0..k {
				x.push(SyncWriteData { motor_id: ids[j], data: v ^ (order[j] as u16) << 4 });
			}
			sent(c.sync_write(a, &x));
			for j in 0..k {
				m.s[j].put(at, &(v ^ (j as u16) << 4).to_le_bytes());
			}
		},
		17 => {
			// all but one
			let mut x = Vec::new();
			for j in 1..k {
				x.push(SyncWriteData { motor_id: ids[j], data: [d[0], d[1] ^ order[j] as u8] });
			}
			sent(c.sync_write_bytes(a, 2, &x));
			for j in 1..k {
				m.s[order[j]].put(at, &[d[0], d[1] ^ order[j] as u8]);
			}
		},
		18 => {
			let mut x = Vec::new();
			for j in 0..k {
				x.push(BulkReadData { motor_id: ids[j], address: 2 * j as u16, count: 1 + j as u16 });
			}
			match c.bulk_read_bytes::<Vec<u8>>(&x) {
				Ok(mut it) => {
					let take = choose(k as u32 + 1) as usize;
					for j in 0..take {
						let o = order[j];
						match it.next() {
							Some(Ok(r)) => {
								check((r.motor_id == ids[j]) & (r.alert == m.alert[o]), 37, "the responses are those of the motors");
								let want = &m.s[o].mem[2 * j..][..1 + j];
								check(r.data.len() == want.len() && eq(&r.data, want), 38, "a read returns the registers of the motor");
							},
							_ => check(false, 39, "every motor responds"),
						}
					}
					if take == k {
						check(it.next().is_none(), 40, "there is one response for every motor");
					}
				},
				Err(_) => check(false, 24, "an instruction that needs no reply succeeds"),
			};
		},
		19 => {
			let mut x: Vec<BulkWriteData<Vec<u8>>> = Vec::new();
			for j in 0..k {
				let n = order[j] % 3;
				x.push(BulkWriteData { motor_id: ids[j], address: 2 * order[j] as u16, data: d[..n].to_vec() });
			}
			sent(c.bulk_write(&x));
			for j in 0..k {
				m.s[j].put(2 * j, &d[..j % 3]);
			}
		},
		20 => match c.read::<u32>(id, {
			let x = any_u16();
			assume(x >= 5);
			x
		}) {
			Err(TransferError::ReadError(ReadError::MotorError(e))) => {
				check((e.error_number() == RANGE) & (e.alert() == alert), 42, "the error of the motor is reported");
			},
			_ => check(false, 43, "an error of the motor is an error"),
		},
		21 => match c.write(id, 8, &0xFFu8) {
			Err(TransferError::ReadError(ReadError::MotorError(e))) => {
				check((e.error_number() == RANGE) & (e.alert() == alert), 42, "the error of the motor is reported");
			},
			_ => check(false, 43, "an error of the motor is an error"),
		},
		24 => {
			// the motor replies too late
			let line = c.serial_port().line;
			unsafe { (*line).busy = true };
			check(late(c.read::<u16>(id, at as u16)), 44, "a motor that does not reply in time is a time-out");
			unsafe { (*line).busy = false };
		},
		25 => {
			let line = c.serial_port().line;
			unsafe { (*line).busy = true };
			check(late(c.write(id, a, &v)), 44, "a motor that does not reply in time is a time-out");
			unsafe { (*line).busy = false };
			m.s[w].put(at, &d);
		},
		26 => match c.scan() {
			Ok(mut it) => {
				// the caller loses interest
				let take = choose(k as u32) as usize;
				for j in 0..take {
					check(matches!(it.next(), Some(Ok(r)) if r.motor_id == m.ids[j]), 33, "a scan finds every motor");
				}
			},
			Err(_) => check(false, 24, "an instruction that needs no reply succeeds"),
		},
		27 => {
			// The instruction is disturbed: any byte but the length, which has the device wait for more. No motor understands it.
			let line = c.serial_port().line;
			let x = any_u8();
			assume(x != 0);
			unsafe { (*line).noise = Some(([0, 3, 4, 7, 8, 9, 10, 11, 12, 13][choose(10) as usize], x, 0)) };
			unsafe { (*line).noisy = true };
			check(late(c.read::<u16>(id, at as u16)), 45, "a motor that does not understand does not reply");
			run(unsafe { &mut *(*line).room });
			unsafe { (*line).noisy = false };
		},
		28 => {
			// The reply is disturbed
			let line = c.serial_port().line;
			let x = any_u8();
			assume(x != 0);
			unsafe { (*line).noise = Some(([0, 3, 4, 7, 8, 9, 10, 11, 12][choose(9) as usize], x, 1)) };
			unsafe { (*line).noisy = true };
			check(c.read::<u16>(id, at as u16).is_err(), 46, "a disturbed reply is not taken for good");
			run(unsafe { &mut *(*line).room });
			unsafe { (*line).noisy = false };
		},
		22 => {
			unit(c.action(id), id, alert);
			m.s[w].now();
		},
		_ => {
			sent(c.broadcast_action());
			for j in 0..k {
				m.s[j].now();
			}
		},
	}
}

/// `param(0)` motors with any IDs and any contents (`param(5)`: none that need stuffing), and then the operations `param(1)`, `param(2)`, `param(3)` (99: none).
/// `param(4)`: bit 0: the devices act at once; bit 1: they own what they decode; the rest: the most bytes in one piece.
#[no_mangle]
pub extern "C" fn h_bus() {
	let (k, how) = (param(0), param(4));
	let mut m = All {
		k,
		calm: param(5) == 1,
		ids: [0; 3],
		models: [0; 3],
		firmware: [0; 3],
		alert: [false; 3],
		s: [State { mem: [0; MEM], pending: None, boots: 0 }; 3],
	};
	let mut line = Line {
		q: [Queue { b: [0; 200], head: 0, len: 0 }; 4],
		stations: k + 1,
		chunk: how >> 2,
		eager: how & 1 == 1,
		room: core::ptr::null_mut(),
		reads: 0,
		busy: false,
		noise: None,
		noisy: false,
	};
	let line: *mut Line = &mut line;
	let mut room: Vec<Servo> = Vec::new();
	for j in 0..k {
		m.ids[j] = any_u8();
		assume(m.ids[j] <= 252);
		for i in 0..j {
			assume(m.ids[j] != m.ids[i]);
		}
		m.models[j] = 0x0400 | any_u8() as u16;
		m.firmware[j] = any_u8();
		m.alert[j] = (j == 0 || !m.calm) && any_u8() & 1 == 1;
		// A pattern that needs stuffing can be anywhere.
		fill_any(&mut m.s[j].mem);
		for i in 0..MEM {
			// ... but only once, to keep the number of cases small
			if m.calm || i != 2 && i != 5 {
				assume(m.s[j].mem[i] != 0xFD);
			}
		}
		let d = match Device::with_buffers(Tty { line, me: j + 1 }, vec![0xFF; 64], vec![0; 64]) {
			Ok(d) => d,
			Err(_) => {
				check(false, 991, "creating a device failed");
				return;
			},
		};
		room.push(Servo {
			d,
			id: m.ids[j],
			nr: j,
			model: m.models[j],
			firmware: m.firmware[j],
			alert: if m.alert[j] { 0x80 } else { 0 },
			owned: how & 2 == 2,
			s: m.s[j],
			reply: None,
		});
	}
	let mut c = match Client::with_buffers(Tty { line, me: 0 }, vec![0; 64], vec![0; 64]) {
		Ok(c) => c,
		Err(_) => {
			check(false, 990, "creating a client failed");
			return;
		},
	};
	unsafe { (*line).room = &mut room };
	for i in 1..4 {
		let kind = param(i);
		if kind != 99 {
			operate(kind, &mut c, &mut m);
			// what needed no reply is still to be carried out
			if let 7 | 8 | 11 | 13 | 16 | 17 | 19 | 23 | 24 | 25 = kind {
				run(unsafe { &mut *(*line).room });
			}
			for j in 0..k {
				check(room[j].s.same(&m.s[j]), 5, "the motors do what they were told, and nothing else");
			}
			cover(i as u32);
		}
	}
	unsafe { (*line).room = core::ptr::null_mut() };
}
