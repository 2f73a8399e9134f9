//! Random cross-program transactions: the same scenario is performed natively through the SDK (in
//! a child process), scripted for the guests, and evaluated by an independent model.
use std::cell::Cell;
use std::collections::BTreeMap;

use mozak_sdk::common::types::{Event, EventType, Poseidon2Hash, ProgramIdentifier, StateAddress, StateObject};
use mozak_sdk::InputTapeType;
use monlib::Rng;

use crate::msgs::{Flat, Msg, Rd, Ret, KINDS};
use crate::with_kind;

pub type Id = [u8; 32];
pub const NUL: Id = [0; 32];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev {
    pub ty: u8,
    pub addr: [u8; 8],
    pub owner: Id,
    pub data: Vec<u8>,
}
impl Ev {
    pub fn sdk(&self) -> Event {
        Event {
            type_: [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner][self.ty as usize],
            object: StateObject {
                address: StateAddress(self.addr),
                constraint_owner: pid(self.owner),
                data: self.data.clone(),
            },
        }
    }

    pub fn enc(&self, o: &mut Vec<u8>) {
        o.push(self.ty);
        o.extend(self.addr);
        o.extend(self.owner);
        self.data.enc(o);
    }

    pub fn rand(r: &mut Rng, addrs: &[[u8; 8]]) -> Ev {
        let n = match r.below(6) {
            0 if r.chance(1, 12) => r.idx(3000),
            0 => 0,
            1 => r.idx(300),
            2 => *r.pick(&[7, 8, 9, 15, 16, 31, 32, 33]),
            _ => r.idx(40),
        };
        Ev {
            ty: r.below(5) as u8,
            addr: *r.pick(addrs),
            owner: if r.chance(1, 4) { NUL } else { r.arr() },
            data: rbytes(r, n),
        }
    }
}
pub fn pid(i: Id) -> ProgramIdentifier { ProgramIdentifier(Poseidon2Hash(i)) }

/// Byte strings with many zeros, ones and 0xff, where paddings and encodings collide.
pub fn rbytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let style = r.below(4);
    (0..n)
        .map(|_| match style {
            0 => 0,
            1 => *r.pick(&[0, 1, 0xff]),
            _ => r.u8(),
        })
        .collect()
}

/// Addresses that collide, share prefixes, or differ only in their first or last byte.
pub fn raddrs(r: &mut Rng) -> Vec<[u8; 8]> {
    let base: [u8; 8] = r.arr();
    (0..r.range(1, 7))
        .map(|_| {
            let mut a = match r.below(4) {
                0 => [0; 8],
                1 => r.arr(),
                _ => base,
            };
            for _ in 0..r.below(3) {
                a[r.idx(8)] ^= 1 << r.below(8);
            }
            a
        })
        .collect()
}

#[derive(Clone, Debug)]
pub enum Act {
    Call(Box<CallN>),
    Emit(Ev),
    Write(u8, Vec<u8>),
    Ident(usize, Vec<Act>),
}
#[derive(Clone, Debug)]
pub struct CallN {
    pub to: usize,
    pub ka: u8,
    pub kr: u8,
    pub arg: Vec<u8>,
    pub ret: Vec<u8>,
    pub acts: Vec<Act>,
}
#[derive(Clone, Debug)]
pub struct Scn {
    pub pids: Vec<Id>,
    pub acts: Vec<Act>,
    pub guest: bool,
}

fn rand_flat(r: &mut Rng, k: u8) -> Vec<u8> {
    fn blob(r: &mut Rng) -> Vec<u8> {
        let n = match r.below(5) {
            0 if r.chance(1, 12) => r.idx(6000),
            0 => 0,
            1 => r.idx(200),
            _ => r.idx(20),
        };
        rbytes(r, n)
    }
    let mut o = vec![];
    match k {
        0 => r.u8().enc(&mut o),
        1 => r.edge64().enc(&mut o),
        2 => blob(r).enc(&mut o),
        3 => Msg {
            a: r.edge32(),
            b: blob(r),
            c: if r.chance(1, 2) { Some((0..r.idx(30)).map(|_| *r.pick(&['a', 'é', '\0', '😱'])).collect()) } else { None },
            d: (r.edge64(), r.u8()),
        }
        .enc(&mut o),
        _ => match r.below(4) {
            0 => Ret::Noop,
            1 => Ret::Id(r.arr()),
            2 => Ret::Blob(blob(r)),
            _ => Ret::Num(r.edge64()),
        }
        .enc(&mut o),
    }
    o
}

impl Scn {
    /// `guest`: only scenarios that participating guests can take part in (no program calls itself).
    pub fn gen(r: &mut Rng, guest: bool) -> Scn {
        let np = r.range(1, 6) as usize;
        let mut pids: Vec<Id> = vec![];
        while pids.len() < np {
            let p = if !pids.is_empty() && r.chance(1, 3) {
                let mut p = *r.pick(&pids);
                p[r.idx(32)] ^= 1 << r.below(8);
                p
            } else {
                r.arr()
            };
            if !pids.contains(&p) && p != NUL {
                pids.push(p);
            }
        }
        let addrs = raddrs(r);
        let mut budget = if r.chance(1, 12) { 60 } else { r.range(1, 22) as i64 };
        let mut acts = vec![];
        while budget > 0 {
            acts.extend(Self::acts(r, &pids, &addrs, None, guest, 0, &mut budget));
            budget -= 1;
        }
        if r.chance(1, 15) && pids.len() > 1 {
            // a deep chain of calls around what there is
            let mut to = r.idx(pids.len());
            for _ in 0..r.range(8, 40) {
                let (ka, kr) = (r.below(u64::from(KINDS)) as u8, r.below(u64::from(KINDS)) as u8);
                let skip = guest && acts.iter().any(|a| matches!(a, Act::Call(c) if c.to == to));
                if skip || acts.iter().any(|a| matches!(a, Act::Ident(..))) {
                    to = (to + 1) % pids.len();
                    if guest && acts.iter().any(|a| matches!(a, Act::Call(c) if c.to == to)) {
                        break;
                    }
                }
                acts = vec![Act::Call(Box::new(CallN { to, ka, kr, arg: rand_flat(r, ka), ret: rand_flat(r, kr), acts }))];
                to = r.idx(pids.len());
            }
        }
        let mut s = Scn { pids, acts, guest };
        if guest {
            // callers must be on the cast list
            let l = s.log();
            let miss: Vec<usize> = (0..np).filter(|i| l.calls.iter().any(|c| c.caller == s.pids[*i]) && !l.calls.iter().any(|c| c.callee == s.pids[*i])).collect();
            for to in miss {
                let (ka, kr) = (r.below(u64::from(KINDS)) as u8, r.below(u64::from(KINDS)) as u8);
                s.acts.push(Act::Call(Box::new(CallN { to, ka, kr, arg: rand_flat(r, ka), ret: rand_flat(r, kr), acts: vec![] })));
            }
        }
        s
    }

    fn acts(r: &mut Rng, pids: &[Id], addrs: &[[u8; 8]], me: Option<usize>, guest: bool, depth: u32, budget: &mut i64) -> Vec<Act> {
        let n = if depth == 0 { 1 } else { r.below(5) };
        let mut v = vec![];
        for _ in 0..n {
            if *budget <= 0 {
                break;
            }
            *budget -= 1;
            match r.below(10) {
                0..=3 if depth < 9 => {
                    let to = r.idx(pids.len());
                    if guest && Some(to) == me {
                        continue;
                    }
                    let (ka, kr) = (r.below(u64::from(KINDS)) as u8, r.below(u64::from(KINDS)) as u8);
                    let (arg, ret) = (rand_flat(r, ka), rand_flat(r, kr));
                    let acts = Self::acts(r, pids, addrs, Some(to), guest, depth + 1, budget);
                    v.push(Act::Call(Box::new(CallN { to, ka, kr, arg, ret, acts })));
                }
                4 | 5 if me.is_some() => v.push(Act::Emit(Ev::rand(r, addrs))),
                6 | 7 if me.is_some() => {
                    let n = if r.chance(1, 8) { r.idx(600) } else { r.idx(24) };
                    v.push(Act::Write(r.below(2) as u8, rbytes(r, n)));
                }
                8 if depth < 9 => {
                    let to = r.idx(pids.len());
                    v.push(Act::Ident(to, Self::acts(r, pids, addrs, Some(to), guest, depth + 1, budget)));
                }
                _ => {}
            }
        }
        v
    }

    // ---- native execution through the real SDK (child process) ----
    pub fn perform(&self) {
        if self.guest {
            let l = self.log();
            for (p, ops) in &l.scripts {
                let s = script_bytes(ops);
                mozak_sdk::native::identity::add_identity(pid(*p));
                let _ = mozak_sdk::write(&InputTapeType::PrivateTape, &s[..4]).unwrap();
                let _ = mozak_sdk::write(&InputTapeType::PrivateTape, &s[4..]).unwrap();
                mozak_sdk::native::identity::rm_identity();
            }
        }
        self.perform_acts(&self.acts);
    }

    fn perform_acts(&self, acts: &[Act]) {
        for a in acts {
            match a {
                Act::Emit(e) => mozak_sdk::event_emit(e.sdk()),
                Act::Write(k, b) => {
                    let k = if *k == 0 { InputTapeType::PublicTape } else { InputTapeType::PrivateTape };
                    let n = mozak_sdk::write(&k, b).unwrap();
                    assert!(n == b.len(), "BAD: write took {n} of {} bytes", b.len());
                }
                Act::Ident(p, acts) => {
                    mozak_sdk::add_identity(pid(self.pids[*p]));
                    self.perform_acts(acts);
                    mozak_sdk::rm_identity();
                }
                Act::Call(c) => {
                    let ran = Cell::new(0);
                    with_kind!(c.ka, A => with_kind!(c.kr, R => {
                        let arg = <A as Flat>::dec(&mut Rd(&c.arg));
                        let ret = <R as Flat>::dec(&mut Rd(&c.ret));
                        let got: R = mozak_sdk::call_send(pid(self.pids[c.to]), arg.clone(), |x: A| -> R {
                            assert!(x == arg, "BAD: handler got another argument");
                            ran.set(ran.get() + 1);
                            self.perform_acts(&c.acts);
                            ret.clone()
                        });
                        assert!(got == ret, "BAD: caller got another return value");
                    }));
                    assert!(ran.get() == 1, "BAD: handler ran {} times", ran.get());
                }
            }
        }
    }

    // ---- independent model ----
    pub fn log(&self) -> Log {
        let mut l = Log::default();
        for p in &self.pids {
            l.scripts.insert(*p, vec![]);
        }
        let mut stack = vec![];
        self.walk(&self.acts, &mut stack, &mut l);
        if self.guest {
            // deterministic per-scenario choice of tape reads
            let mut r = Rng::new(monlib::fnv(&self.pids.concat()) ^ l.calls.len() as u64);
            for (p, ops) in &mut l.scripts {
                for _ in 0..r.below(6) {
                    let k = r.below(2) as u8;
                    let avail = if k == 0 { &l.public } else { &l.private }.get(p).map_or(0, Vec::len);
                    let at = r.idx(ops.len() + 1);
                    ops.insert(at, match r.below(4) {
                        0 => Op::Len(k),
                        1 => Op::Read(k, avail as u32 + r.below(9) as u32),
                        2 => Op::Read(k, avail as u32),
                        _ => Op::Read(k, r.below(avail as u64 + 2) as u32),
                    });
                }
                ops.push(Op::Recv(0, 0, None));
            }
        }
        l
    }

    fn walk(&self, acts: &[Act], stack: &mut Vec<Id>, l: &mut Log) {
        let me = stack.last().copied().unwrap_or(NUL);
        for a in acts {
            match a {
                Act::Emit(e) => {
                    l.events.entry(me).or_default().push(e.clone());
                    l.scripts.entry(me).or_default().push(Op::Emit(e.clone()));
                }
                Act::Write(k, b) => if *k == 0 { &mut l.public } else { &mut l.private }.entry(me).or_default().extend(b),
                Act::Ident(p, acts) => {
                    stack.push(self.pids[*p]);
                    self.walk(acts, stack, l);
                    stack.pop();
                }
                Act::Call(c) => {
                    let to = self.pids[c.to];
                    l.calls.push(CallRec { caller: me, callee: to, ka: c.ka, kr: c.kr, arg: c.arg.clone(), ret: c.ret.clone() });
                    if me != NUL {
                        l.scripts.entry(me).or_default().push(Op::Send(to, c.ka, c.kr, c.arg.clone(), c.ret.clone()));
                    }
                    l.scripts.entry(to).or_default().push(Op::Recv(c.ka, c.kr, Some((me, c.arg.clone(), c.ret.clone()))));
                    stack.push(to);
                    self.walk(&c.acts, stack, l);
                    stack.pop();
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct CallRec {
    pub caller: Id,
    pub callee: Id,
    pub ka: u8,
    pub kr: u8,
    pub arg: Vec<u8>,
    pub ret: Vec<u8>,
}
#[derive(Default)]
pub struct Log {
    pub calls: Vec<CallRec>,
    pub events: BTreeMap<Id, Vec<Ev>>,
    pub public: BTreeMap<Id, Vec<u8>>,
    pub private: BTreeMap<Id, Vec<u8>>,
    pub scripts: BTreeMap<Id, Vec<Op>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Recv(u8, u8, Option<(Id, Vec<u8>, Vec<u8>)>),
    Send(Id, u8, u8, Vec<u8>, Vec<u8>),
    Emit(Ev),
    Read(u8, u32),
    Len(u8),
}

/// The script as the guest reads it: length, then operations.
pub fn script_bytes(ops: &[Op]) -> Vec<u8> {
    let mut o = vec![];
    for op in ops {
        match op {
            Op::Recv(a, r, _) => o.extend([1, *a, *r]),
            Op::Send(to, a, r, arg, _) => {
                o.push(2);
                o.extend(to);
                o.extend([*a, *r]);
                o.extend(arg);
            }
            Op::Emit(e) => {
                o.push(3);
                e.enc(&mut o);
            }
            Op::Read(k, n) => {
                o.extend([4, *k]);
                o.extend(n.to_le_bytes());
            }
            Op::Len(k) => o.extend([5, *k]),
        }
    }
    o.push(0);
    let mut v = (o.len() as u32).to_le_bytes().to_vec();
    v.extend(o);
    v
}

/// What the guest must log for these operations over these tapes (`private` includes the script).
pub fn transcript(ops: &[Op], public: &[u8], private: &[u8]) -> Vec<u8> {
    let script = script_bytes(ops).len();
    let mut o = vec![];
    o.extend(4u32.to_le_bytes());
    o.extend((script as u32 - 4).to_le_bytes());
    let mut pos = [0, script];
    for op in ops {
        match op {
            Op::Recv(_, _, x) => {
                o.push(1);
                match x {
                    None => o.push(0),
                    Some((c, a, r)) => {
                        o.push(1);
                        o.extend(c);
                        o.extend(a);
                        o.extend(r);
                    }
                }
            }
            Op::Send(_, _, _, _, r) => {
                o.push(2);
                o.extend(r);
            }
            Op::Emit(_) => o.push(3),
            Op::Read(k, n) => {
                let t = [public, private][*k as usize];
                let p = &mut pos[*k as usize];
                let got = (*n as usize).min(t.len() - *p);
                o.push(4);
                o.extend((got as u32).to_le_bytes());
                o.extend(&t[*p..*p + got]);
                o.extend(vec![0xA5; *n as usize - got]);
                *p += got;
            }
            Op::Len(k) => {
                o.push(5);
                o.extend(([public, private][*k as usize].len() as u32).to_le_bytes());
            }
        }
    }
    o.push(0);
    o
}

/// rkyv form of a message given in flat form.
pub fn rkyv_bytes(kind: u8, flat: &[u8]) -> Vec<u8> {
    with_kind!(kind, T => {
        let v = <T as Flat>::dec(&mut Rd(flat));
        rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&v).unwrap().to_vec()
    })
}
