//! C11, C16, C17: the SDK inside guest programs.
use clirun::runner::raw_tapes_from_system_tape;
use mozak_runner::state::RawTapes;
use mozak_sdk::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, Poseidon2Hash};
use mozak_sdk::native::poseidon::{poseidon2_hash_no_pad, poseidon2_hash_with_pad};
use monlib::poseidon::{hash_bytes, hash_pad, two_to_one};
use monlib::{cores, fnv, guard, hash_dbg, hex, json, parallel, Mon, Rng};

use crate::guest::{self, End};
use crate::msgs::{Flat, Rd};
use crate::refs::{self, Canon};
use crate::scenario::{raddrs, rbytes, Ev, Id};

pub fn prefixed(b: &[u8]) -> Vec<u8> { [&(b.len() as u32).to_le_bytes()[..], b].concat() }

/// Tapes of a program that takes part in no transaction.
pub fn lone_tapes(public: &[u8], private: &[u8]) -> RawTapes {
    let calls = rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&Vec::<CrossProgramCall>::new()).unwrap();
    let hints = rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&Vec::<CanonicalOrderedTemporalHints>::new()).unwrap();
    RawTapes {
        private_tape: prefixed(private),
        public_tape: prefixed(public),
        call_tape: prefixed(&calls),
        event_tape: prefixed(&hints),
        self_prog_id_tape: [7; 32],
        events_commitment_tape: [0; 32],
        cast_list_commitment_tape: [0; 32],
    }
}

pub fn c11() {
    const RULE: &str = "one evaluation = one digest computed by the SDK inside a guest program in the VM, by the native SDK and by the reference; distinct = distinct inputs";
    let m = Mon::new("C11");
    let (prog, _) = guest::load("actor");
    let n = m.n(260, 8000);
    parallel(cores(), |w| {
        for i in (w..n).step_by(cores() as usize) {
            let mut r = m.rng(i);
            let mut script = vec![];
            // what each operation must log: (operation, input, native result, reference result)
            let mut exp: Vec<(&str, Vec<u8>, Result<Vec<u8>, String>, Vec<u8>)> = vec![];
            for _ in 0..r.range(3, 14) {
                match r.below(7) {
                    0 | 1 => {
                        let len = match r.below(5) {
                            0 => r.idx(300),
                            1 => *r.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 65]),
                            _ => r.idx(40),
                        };
                        let b = rbytes(&mut r, len);
                        script.push(6);
                        b.enc(&mut script);
                        exp.push(("hash-with-pad", b.clone(), guard(|| poseidon2_hash_with_pad(&b).inner().to_vec()), hash_pad(&b).to_vec()));
                        // the padded preimage of another string differs
                        let mut c = b.clone();
                        match r.below(3) {
                            0 => c.push(0),
                            1 => c.push(1),
                            _ => {
                                c.pop();
                            }
                        }
                        if c != b && guard(|| poseidon2_hash_with_pad(&c)) == guard(|| poseidon2_hash_with_pad(&b)) {
                            m.violation("padding-collides", format!("{} and {}", hex(&b), hex(&c)));
                        }
                        m.count("padding pairs", 1);
                    }
                    2 => {
                        let len = 8 * (1 + r.idx(20));
                        let b = rbytes(&mut r, len);
                        script.push(7);
                        b.enc(&mut script);
                        exp.push(("hash-no-pad", b.clone(), guard(|| poseidon2_hash_no_pad(&b).inner().to_vec()), hash_bytes(&b).to_vec()));
                    }
                    3 => {
                        let (a, b): (Id, Id) = (r.arr(), if r.chance(1, 4) { [0; 32] } else { r.arr() });
                        script.push(8);
                        script.extend(a);
                        script.extend(b);
                        exp.push(("two-to-one", [a, b].concat(), guard(|| Poseidon2Hash::two_to_one(Poseidon2Hash(a), Poseidon2Hash(b)).inner().to_vec()), two_to_one(a, b).to_vec()));
                    }
                    4 => {
                        let addrs = raddrs(&mut r);
                        let e = Ev::rand(&mut r, &addrs);
                        script.push(9);
                        e.enc(&mut script);
                        let c = Canon::of(&e);
                        let flat = |a: &[u8], t: u8, v: &[u8], h: &[u8]| [a, &[t], v, h].concat();
                        let nat = guard(|| {
                            let x = CanonicalEvent::from_event(&e.sdk());
                            flat(&x.address.inner(), x.type_ as u8, &x.value.inner(), &x.canonical_hash().inner())
                        });
                        exp.push(("canonical-event", format!("{e:?}").into_bytes(), nat, flat(&c.addr, c.ty, &c.value, &c.hash())));
                    }
                    5 => {
                        let len = r.idx(9);
                        let base = r.u64();
                        let mut l: Vec<(u64, Id)> = (0..len).map(|_| (if r.chance(1, 2) { base ^ (1 << r.below(64)) } else { let e = r.edge64(); *r.pick(&[base, 0, e]) }, r.arr())).collect();
                        l.sort_by_key(|x| x.0);
                        script.push(10);
                        script.extend((l.len() as u32).to_le_bytes());
                        for (a, h) in &l {
                            script.extend(a.to_le_bytes());
                            script.extend(h);
                        }
                        let nat = guard(|| mozak_sdk::common::merkle::merkleize(l.iter().map(|x| (x.0, Poseidon2Hash(x.1))).collect()).inner().to_vec());
                        exp.push(("merkle-root", format!("{l:x?}").into_bytes(), nat, refs::merkle(&l).to_vec()));
                    }
                    _ => {
                        let h: Id = r.arr();
                        script.push(16);
                        script.extend(h);
                        let nat = guard(|| {
                            let p = Poseidon2Hash(h);
                            [p.to_u64s().iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>(), Poseidon2Hash::from_u64s(p.to_u64s()).inner().to_vec(), Poseidon2Hash::from(p.to_u64s()).inner().to_vec()].concat()
                        });
                        exp.push(("hash-words", h.to_vec(), nat, [h, h, h].concat()));
                    }
                }
            }
            script.push(0);
            let run = guest::run(&prog, lone_tapes(&[], &prefixed(&script)), 40_000_000);
            m.count("guest instructions", run.steps);
            if !matches!(run.end, End::Halt(_)) {
                m.violation("guest-abort", format!("the guest did not halt: {:?}; script {}", run.end, hex(&script)));
                continue;
            }
            let mut rd = Rd(run.log.get(8..).unwrap_or(&[]));
            for (what, input, nat, reference) in &exp {
                let got = guard(|| {
                    rd.u8();
                    rd.take(reference.len()).to_vec()
                });
                m.eval();
                m.count(what, 1);
                m.nontrivial(fnv(input) ^ fnv(what.as_bytes()));
                let show = |x: &Result<Vec<u8>, String>| x.as_ref().map_or_else(Clone::clone, |v| hex(v));
                if got.as_ref() != Ok(reference) {
                    m.violation(&format!("guest-{what}"), format!("guest {} reference {} native {}\ninput {}", show(&got), hex(reference), show(nat), hex(input)));
                }
                if nat.as_ref() != Ok(reference) {
                    m.violation(&format!("native-{what}"), format!("native {} reference {}\ninput {}", show(nat), hex(reference), hex(input)));
                }
            }
            if i < 3 {
                m.sample(json!({"operations": exp.iter().map(|x| x.0).collect::<Vec<_>>(), "guest instructions": run.steps}));
            }
        }
    });
    m.finish(RULE);
}

pub fn c16() {
    const RULE: &str = "one evaluation = one read, seek or length query of a guest compared with a file over the same bytes; distinct = distinct operation sequences";
    let m = Mon::new("C16");
    let (actor, _) = guest::load("actor");
    let (seeker, _) = guest::load("seeker");
    let n = m.n(500, 20_000);
    parallel(cores(), |w| {
        for i in (w..n).step_by(cores() as usize) {
            let mut r = m.rng(i);
            let tape = |r: &mut Rng| {
                let n = match r.below(5) {
                    0 => 0,
                    1 => r.idx(3),
                    2 => r.idx(900),
                    _ => r.idx(60),
                };
                r.bytes(n)
            };
            let (public, private) = (tape(&mut r), tape(&mut r));
            if i % 2 == 0 {
                via_sdk(&m, &actor, &mut r, &public, &private, i);
            } else {
                via_seeker(&m, &seeker, &mut r, &public, &private, i);
            }
        }
    });
    m.finish(RULE);
}

fn read_size(r: &mut Rng, avail: usize) -> usize {
    match r.below(6) {
        0 => 0,
        1 => avail,
        2 => avail + 1 + r.idx(20),
        3 => r.idx(avail + 2),
        _ => r.idx(12),
    }
}

/// The public functions `read` and `input_tape_len`, on tapes made by the CLI from a system tape.
fn via_sdk(m: &Mon, prog: &mozak_runner::elf::Program, r: &mut Rng, public: &[u8], data: &[u8], i: u64) {
    let mut ops = vec![];
    let mut pos = [0usize; 2];
    for _ in 0..r.range(1, 16) {
        let k = r.idx(2);
        if r.chance(1, 6) {
            ops.push((5, k, 0));
        } else {
            let t = [public, data][k].len();
            let n = read_size(r, t - pos[k]);
            pos[k] = (pos[k] + n).min(t);
            ops.push((4, k, n));
        }
    }
    let mut script = vec![];
    for (op, k, n) in &ops {
        script.extend([*op, *k as u8]);
        if *op == 4 {
            script.extend((*n as u32).to_le_bytes());
        }
    }
    script.push(0);
    let script = prefixed(&script);
    let private = [&script[..], data].concat();
    // through the CLI's conversion
    let me = crate::scenario::pid([9; 32]);
    let mut sys = mozak_sdk::common::types::SystemTape::default();
    sys.public_input_tape.writer.insert(me, public.to_vec().into());
    sys.private_input_tape.writer.insert(me, private.clone().into());
    let other = crate::scenario::pid([8; 32]);
    sys.public_input_tape.writer.insert(other, vec![1; 40].into());
    sys.private_input_tape.writer.insert(other, vec![2; 40].into());
    let tapes = match guard(|| raw_tapes_from_system_tape(Some(&serde_json::to_vec(&sys).unwrap()[..]), me)) {
        Ok(t) => t,
        Err(e) => return m.violation("tape-conversion", e),
    };
    let run = guest::run(prog, tapes, 20_000_000);
    let mut e = vec![];
    e.extend(4u32.to_le_bytes());
    e.extend((script.len() as u32 - 4).to_le_bytes());
    let mut pos = [0, script.len()];
    for (op, k, n) in &ops {
        let t = [public, &private][*k];
        e.push(*op);
        if *op == 5 {
            e.extend((t.len() as u32).to_le_bytes());
            m.count("length queries", 1);
        } else {
            let got = (*n).min(t.len() - pos[*k]);
            e.extend((got as u32).to_le_bytes());
            e.extend(&t[pos[*k]..pos[*k] + got]);
            e.extend(vec![0xA5; n - got]);
            pos[*k] += got;
            m.count(if got < *n { "short reads" } else { "full reads" }, 1);
        }
    }
    e.push(0);
    judge(m, "read", &run, &e, &format!("{ops:?} on tapes of {} and {} bytes (script {} bytes first)", public.len(), private.len(), script.len()), ops.len());
    if i < 3 {
        m.sample(json!({"operations": format!("{ops:?}"), "public": public.len(), "private": data.len()}));
    }
}

fn judge(m: &Mon, what: &str, run: &guest::Run, e: &[u8], desc: &str, ops: usize) {
    m.evals(ops as u64);
    m.nontrivial(fnv(desc.as_bytes()));
    m.count("guest instructions", run.steps);
    if !matches!(run.end, End::Halt(_)) {
        m.violation(&format!("{what}-abort"), format!("the guest did not halt: {:?}\n{desc}", run.end));
    } else if run.log != e {
        let at = run.log.iter().zip(e).position(|(a, b)| a != b).unwrap_or(run.log.len().min(e.len()));
        m.violation(&format!("{what}-differs"), format!("logs differ from byte {at}: guest {} expected {}\n{desc}", hex(&run.log[at..run.log.len().min(at + 40)]), hex(&e[at..e.len().min(at + 40)])));
    }
}

/// The tape type itself, with seeks, against a file of the same content.
fn via_seeker(m: &Mon, prog: &mozak_runner::elf::Program, r: &mut Rng, public: &[u8], private: &[u8], i: u64) {
    let mut ops: Vec<(u8, usize, i64)> = vec![];
    let mut pos = [0i64; 2];
    let mut e = vec![];
    for _ in 0..r.range(1, 24) {
        let k = r.idx(2);
        let t = [public, private][k];
        let len = t.len() as i64;
        if r.chance(1, 2) {
            let n = read_size(r, (len - pos[k]).max(0) as usize);
            let got = n.min((len - pos[k]).max(0) as usize);
            ops.push((1, k, n as i64));
            e.push(1);
            e.extend((got as u64).to_le_bytes());
            let p = (pos[k].min(len)) as usize;
            e.extend(&t[p..p + got]);
            e.extend(vec![0xA5; n - got]);
            pos[k] += got as i64;
            m.count("seeker reads", 1);
        } else {
            let op = 2 + r.below(3) as u8;
            let span = len + 6;
            let target = r.below(span as u64) as i64 - if r.chance(1, 6) { 5 } else { 0 };
            let base = match op {
                2 => 0,
                3 => len,
                _ => pos[k],
            };
            let v = if op == 2 { target.max(0) } else { target - base };
            let to = base + v;
            ops.push((op, k, v));
            e.push(op);
            if to < 0 {
                e.extend(u64::MAX.to_le_bytes());
                m.count("refused seeks", 1);
            } else {
                pos[k] = to;
                e.extend((to as u64).to_le_bytes());
                m.count("seeks", 1);
            }
        }
    }
    e.push(0);
    let mut script = vec![];
    for (op, k, v) in &ops {
        script.extend([*op, *k as u8]);
        script.extend(v.to_le_bytes());
        script.push(0);
    }
    script.extend([0; 11]);
    let mut tapes = lone_tapes(public, private);
    tapes.call_tape = script;
    let run = guest::run(prog, tapes, 20_000_000);
    judge(m, "seek", &run, &e, &format!("{ops:?} (1 read, 2 start, 3 end, 4 current) on tapes of {} and {} bytes", public.len(), private.len()), ops.len());
    if i < 4 {
        m.sample(json!({"seeker operations": format!("{ops:?}")}));
    }
}

pub fn c17() {
    const RULE: &str = "one evaluation = one heap request of a guest whose answer was checked against all earlier blocks, the image, the stack and the block's content; distinct = distinct request sequences";
    let m = Mon::new("C17");
    let (prog, bytes) = guest::load("actor");
    let (_, segs) = monlib::refvm::parse_elf(&bytes);
    let image: Vec<(u64, u64)> = segs.iter().map(|s| (u64::from(s.vaddr), u64::from(s.vaddr) + u64::from(s.memsz))).collect();
    let image_end = image.iter().map(|x| x.1).max().unwrap();
    let n = m.n(240, 10_000);
    parallel(cores(), |w| {
        for i in (w..n).step_by(cores() as usize) {
            let mut r = m.rng(i);
            // (op, a, b, c) = (11 alloc, size, align, zeroed) (12 realloc, block, size) (13 check) (14 free) (17 collections, n, seed) (15 env write)
            let mut ops: Vec<(u8, u32, u32, u8)> = vec![];
            let huge = r.chance(1, 4);
            let mut sizes: Vec<u32> = vec![];
            let mut out0 = None;
            for _ in 0..r.range(2, 30) {
                match r.below(12) {
                    0..=6 => {
                        let size = match r.below(if huge { 8 } else { 6 }) {
                            0 => 1,
                            1 => 1 + r.below(9) as u32,
                            2 => 1 << r.below(12),
                            3 => 1 + r.below(5000) as u32,
                            6 | 7 => *r.pick(&[0x7fff_0000, 0x4000_0000, 0x2000_0001, 0x1fff_fff0, 0x0fff_0000, 0x7000_0000, 0x00ff_ffff]),
                            _ => 1 + r.below(100) as u32,
                        };
                        let align = match r.below(4) {
                            0 => 1,
                            1 => 1 << r.below(5),
                            2 => 1 << r.below(13),
                            _ => *r.pick(&[4, 8, 16]),
                        };
                        if u64::from(size) + u64::from(align) > 0x7fff_ffff {
                            continue;
                        }
                        ops.push((11, size, align, r.below(2) as u8));
                        sizes.push(size);
                    }
                    // block numbers are only known when none was refused
                    7 | 8 if !huge && !sizes.is_empty() => {
                        let b = r.idx(sizes.len());
                        if sizes[b] == 0 {
                            continue;
                        }
                        let s = if r.chance(1, 2) { sizes[b] + r.below(600) as u32 } else { 1 + r.below(4096) as u32 };
                        if s < sizes[b] && sizes[b] > 4096 {
                            continue;
                        }
                        sizes[b] = s;
                        ops.push((12, b as u32, s, 0));
                    }
                    9 if !huge && !sizes.is_empty() => {
                        let b = r.idx(sizes.len());
                        if sizes[b] > 0 {
                            sizes[b] = 0;
                            ops.push((14, b as u32, 0, 0));
                        }
                    }
                    10 if !huge => ops.push((17, r.below(60) as u32, r.u32(), 0)),
                    11 if !huge => {
                        let b = r.u8();
                        out0.get_or_insert(b);
                        ops.push((15, u32::from(b), 0, 0));
                    }
                    _ => ops.push((13, 0, 0, 0)),
                }
            }
            ops.push((13, 0, 0, 0));
            let mut script = vec![];
            for (op, a, b, c) in &ops {
                script.push(*op);
                match op {
                    11 => {
                        script.extend(a.to_le_bytes());
                        script.extend(b.to_le_bytes());
                        script.push(*c);
                    }
                    12 | 17 => {
                        script.extend(a.to_le_bytes());
                        script.extend(b.to_le_bytes());
                    }
                    14 => script.extend(a.to_le_bytes()),
                    15 => vec![*a as u8].enc(&mut script),
                    _ => {}
                }
            }
            script.push(0);
            let run = guest::run(&prog, lone_tapes(&[], &prefixed(&script)), 40_000_000);
            m.count("guest instructions", run.steps);
            m.nontrivial(hash_dbg(&ops));
            let desc = format!("requests (11 alloc size align zeroed; 12 realloc block size; 13 check; 14 free; 17 collections): {ops:?}");
            match &run.end {
                End::Halt(code) => {
                    if *code & 0xff != u32::from(out0.unwrap_or(0)) {
                        m.violation("output-byte", format!("halted with {code:#x}, the first output byte is {out0:?}\n{desc}"));
                    }
                }
                e => {
                    m.violation("guest-abort", format!("the guest did not halt: {e:?}\n{desc}"));
                    continue;
                }
            }
            let mut rd = Rd(run.log.get(8..).unwrap_or(&[]));
            let mut given: Vec<(u64, u64)> = vec![];
            let mut top = image_end;
            let check = guard(|| {
                for (op, a, b, c) in &ops {
                    rd.u8();
                    m.eval();
                    match op {
                        11 | 12 => {
                            let (p, sp) = (u64::from(rd.u32()), u64::from(rd.u32()));
                            let (size, align) = if *op == 11 { (u64::from(*a), u64::from(*b)) } else { (u64::from(*b), 1) };
                            if p == 0 {
                                m.count("refused requests", 1);
                                // everything the guest allocated besides is far below 1 MB
                                if top + size + align + (1 << 20) < sp {
                                    m.violation("refused", format!("{size} bytes refused though memory from {top:#x} to {sp:#x} is free\n{desc}"));
                                }
                                continue;
                            }
                            if *op == 11 && p % align != 0 {
                                m.violation("misaligned", format!("{p:#x} for alignment {align}\n{desc}"));
                            }
                            let (lo, hi) = (p, p + size);
                            if hi > sp {
                                m.violation("overlaps-stack", format!("{lo:#x}..{hi:#x} with the stack at {sp:#x}\n{desc}"));
                            }
                            if let Some(x) = image.iter().find(|x| lo < x.1 && x.0 < hi) {
                                m.violation("overlaps-image", format!("{lo:#x}..{hi:#x} and image {x:x?}\n{desc}"));
                            }
                            // reallocation may answer with the block itself
                            if let Some(x) = given.iter().find(|x| lo < x.1 && x.0 < hi) {
                                if *op == 11 || x.0 != lo {
                                    m.violation("overlaps-block", format!("{lo:#x}..{hi:#x} and {x:x?}\n{desc}"));
                                }
                            }
                            given.push((lo, hi));
                            top = top.max(hi);
                            if *op == 11 {
                                let dirty = rd.u32();
                                if dirty != 0 {
                                    m.violation("not-zeroed", format!("{dirty} bytes of {lo:#x}..{hi:#x} not zero\n{desc}"));
                                }
                                m.count(if *c == 1 { "zeroed allocations" } else { "allocations" }, 1);
                            } else {
                                if rd.u8() != 1 {
                                    m.violation("realloc-loses", format!("contents of block {a} changed\n{desc}"));
                                }
                                m.count("reallocations", 1);
                            }
                        }
                        13 => {
                            let bad = rd.u32();
                            if bad != 0 {
                                m.violation("content-lost", format!("{bad} blocks no longer hold what was written\n{desc}"));
                            }
                        }
                        17 => {
                            let h = rd.u32();
                            let e = collections(*a, *b);
                            if h != e {
                                m.violation("collections", format!("guest collections give {h:#x}, expected {e:#x}\n{desc}"));
                            }
                            m.count("collection workloads", 1);
                        }
                        _ => {}
                    }
                }
            });
            if check.is_err() {
                m.violation("log-short", desc.clone());
            }
            if i < 3 {
                m.sample(json!({"requests": ops.len(), "first blocks": given.iter().take(3).map(|x| format!("{:#x}+{}", x.0, x.1 - x.0)).collect::<Vec<_>>()}));
            }
        }
    });
    m.finish(RULE);
}

fn collections(n: u32, seed: u32) -> u32 {
    let mut m = std::collections::BTreeMap::new();
    let mut v: Vec<u32> = vec![];
    let mut s = String::new();
    let mut x = seed;
    for i in 0..n {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        m.insert(x >> 12, i);
        v.push(x);
        s.push((b'a' + (x >> 28) as u8) as char);
    }
    let mut h = 0u32;
    for (k, i) in &m {
        h = h.wrapping_mul(31).wrapping_add(k ^ i);
    }
    v.sort_unstable();
    for k in &v {
        h = h.wrapping_mul(33).wrapping_add(*k);
    }
    for c in s.bytes() {
        h = h.wrapping_mul(37).wrapping_add(u32::from(c));
    }
    h
}
