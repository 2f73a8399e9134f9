use std::sync::Arc;

use monlib::refvm::{enc, Seg, Tapes, Trap, R, W, X};
use monlib::{cores, guard, json, parallel, Mon, Rng};
use mozak_runner::vm::step;

use crate::gen;
use crate::lockstep::{self, arch, describe, record, Case, Stats};

fn tally(m: &Mon, s: &Stats) {
    m.eval();
    m.count("instructions compared", s.steps);
    m.count(&format!("runs ended by {}", s.end), 1);
    if s.steps > 0 {
        m.nontrivial(s.hash ^ s.steps);
    }
}

fn run_arch(m: &Mon, c: &Case) {
    match arch(c) {
        Ok(s) => {
            tally(m, &s);
            KINDS.lock().unwrap().extend(s.kinds.iter());
        }
        Err((sig, d)) => {
            m.eval();
            m.violation(&sig, d);
        }
    }
}

static KINDS: std::sync::Mutex<std::collections::BTreeSet<(monlib::refvm::K, u8)>> = std::sync::Mutex::new(std::collections::BTreeSet::new());

fn kinds(m: &Mon) {
    let k = KINDS.lock().unwrap();
    let distinct: std::collections::BTreeSet<_> = k.iter().map(|x| x.0).collect();
    m.count("distinct instruction kinds observed", distinct.len() as u64);
    m.count("distinct (kind, result class) pairs observed", k.len() as u64);
    m.sample(json!({"instruction kinds observed": format!("{distinct:?}")}));
}

pub fn c01() -> ! {
    let m = Arc::new(Mon::new("C01"));
    m.watchdog(120, RULE01);
    // operand sweeps
    let edges: Vec<u32> = vec![0, 1, 2, 3, 5, 31, 32, 33, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_0000, 0xffff_fffe, 0xffff_ffff];
    parallel(cores(), |w| {
        let mut r = m.rng(1000 + w);
        let mut k = 0u64;
        for (f7, f3s) in [(0u32, 0..8u32), (1, 0..8), (0x20, 0..8)] {
            for f3 in f3s {
                if f7 == 0x20 && f3 != 0 && f3 != 5 {
                    continue;
                }
                for a in &edges {
                    for b in &edges {
                        k += 1;
                        if k % cores() != w {
                            continue;
                        }
                        let (rd, r1, r2) = *r.pick(&[(7u32, 5u32, 6u32), (5, 5, 6), (6, 5, 6), (0, 5, 6), (31, 1, 2)]);
                        run_arch(&m, &gen::single(enc::r(f7, r2, r1, f3, rd, 0x33), (r1 as u8, *a), (r2 as u8, *b), 0x1000));
                    }
                }
            }
        }
        for a in &edges {
            for sh in 0..32 {
                k += 1;
                if k % cores() != w {
                    continue;
                }
                for (f7, f3) in [(0, 1), (0, 5), (0x20, 5)] {
                    run_arch(&m, &gen::single(enc::r(f7, sh, 5, f3, 6, 0x13), (5, *a), (7, 0), 0x1000));
                }
            }
            for imm in [0, 1, -1, 2, 7, 31, 32, 2047, -2048, -2047, 0x555, -0x555] {
                k += 1;
                if k % cores() != w {
                    continue;
                }
                for f3 in [0, 2, 3, 4, 6, 7] {
                    run_arch(&m, &gen::single(enc::i(imm, 5, f3, 6, 0x13), (5, *a), (7, 0), 0x1000));
                }
            }
            for b in &edges {
                k += 1;
                if k % cores() != w {
                    continue;
                }
                for f3 in [0, 1, 4, 5, 6, 7] {
                    for off in [8, -8, 4094, -4096, 2048] {
                        run_arch(&m, &gen::single(enc::b(off, 6, 5, f3), (5, *a), (6, *b), *r.pick(&gen::BASES[..6])));
                    }
                }
            }
        }
        // jumps, upper immediates
        for _ in 0..m.n(1500, 6000) {
            let off = (r.u32() & 0x001f_fffe) as i32 - 0x10_0000;
            run_arch(&m, &gen::single(enc::j(off & !1, *r.pick(&[0, 1, 5])), (5, 0), (6, 0), *r.pick(&gen::BASES[..6])));
            run_arch(&m, &gen::single(enc::i(r.below(4096) as i32, 5, 0, *r.pick(&[0, 1, 5]), 0x67), (5, r.edge32()), (6, 0), *r.pick(&gen::BASES[..6])));
            run_arch(&m, &gen::single(enc::u(r.edge32(), 6, *r.pick(&[0x37, 0x17])), (5, 0), (6, 0), *r.pick(&gen::BASES[..6])));
        }
        // random programs
        for _ in 0..m.n(20_000, 300_000) {
            if !m.within(60, 1500) || m.violation_count() > 200 {
                break;
            }
            let c = gen::free(&mut r);
            run_arch(&m, &c);
        }
    });
    let c = gen::free(&mut m.rng(7));
    m.sample(json!({"program": describe(&c), "compared steps": arch(&c).map(|s| s.steps).unwrap_or(0)}));
    // the architecture compliance programs, in lock step
    if let Ok(d) = std::fs::read_dir("/repo/riscv-testdata/testdata") {
        let mut paths: Vec<_> = d.flatten().map(|e| e.path()).filter(|p| p.extension().is_none()).collect();
        paths.sort();
        parallel(cores(), |w| {
            for (i, p) in paths.iter().enumerate() {
                if i as u64 % cores() != w {
                    continue;
                }
                let Ok(b) = std::fs::read(p) else { continue };
                if b.len() < 52 || &b[..4] != b"\x7fELF" {
                    continue;
                }
                let (entry, segs) = monlib::refvm::parse_elf(&b);
                let max_steps = if p.to_string_lossy().contains("-v-") { m.n(3_000, 100_000) } else { 100_000 };
                let c = Case { entry, segs, regs: vec![], tapes: Tapes::default(), max_steps };
                let t = std::time::Instant::now();
                match arch(&c) {
                    Ok(s) => {
                        tally(&m, &s);
                        m.count("compliance programs", 1);
                        if s.end != "halt" {
                            m.count("compliance programs not halting in the reference", 1);
                        }
                    }
                    Err((sig, d)) => m.violation(&sig, format!("{}: {d}", p.display())),
                }
                if std::env::var("MON_TIMES").is_ok() { eprintln!("{} {:?}", p.display(), t.elapsed()); }
            }
        });
    }
    kinds(&m);
    m.finish(RULE01)
}
const RULE01: &str = "each evaluation is one program run in lock step on the real machine and on an independent RV32IM interpreter of the raw words, comparing pc, all registers, touched memory and clock after every instruction; non-trivial: at least one instruction executed, distinct by the sequence of (word, result, next pc)";

/// Overlapping accesses around protection boundaries and the ends of the address space.
pub fn c03() -> ! {
    let m = Arc::new(Mon::new("C03"));
    m.watchdog(120, RULE03);
    parallel(cores(), |w| {
        let mut r = m.rng(w);
        for _ in 0..m.n(4000, 200_000) {
            if !m.within(40, 1500) || m.violation_count() > 100 {
                break;
            }
            let c = memcase(&mut r);
            run_arch(&m, &c);
        }
    });
    let c = memcase(&mut m.rng(99));
    m.sample(json!({"program": describe(&c), "end": arch(&c).map(|s| s.end).unwrap_or_default()}));
    kinds(&m);
    if m.counter("runs ended by read-only") == 0 && !m.violated() {
        eprintln!("inconclusive: no store to read-only memory observed");
        std::process::exit(4);
    }
    m.finish(RULE03)
}
const RULE03: &str = "each evaluation is a program of overlapping loads, stores, tape reads and hash calls of all widths in a window crossing read-only, writable, code and undefined memory or the end of the address space, compared byte for byte with a map model; a store to read-only memory must trap; non-trivial: at least one instruction executed, distinct by executed history";

fn memcase(r: &mut Rng) -> Case {
    let code = *r.pick(&[0x1000u32, 0x0200_0000]);
    // window in which everything happens
    let win: u32 = *r.pick(&[0x0040_0000, 0xffff_ffe0, 0, code.wrapping_sub(16), 0x7fff_fff0]);
    let mut segs = vec![];
    let mut at = win.wrapping_sub(16);
    for _ in 0..r.below(5) {
        let n = 1 + r.below(20) as u32;
        if at.checked_add(n + 4).is_some() && !(at < code + 4096 && at + n > code) {
            let f = *r.pick(&[R, R, R | W, R | W, R | W]);
            let dn = r.below(u64::from(n) + 1) as usize;
            segs.push(Seg { p_type: 1, flags: f, vaddr: at, memsz: n, data: r.bytes(dn) });
        }
        at = at.wrapping_add(n + r.below(4) as u32);
    }
    let mut w = vec![];
    for _ in 0..1 + r.idx(30) {
        let off = r.below(64) as u32;
        let a = win.wrapping_sub(20).wrapping_add(off);
        match r.below(12) {
            0..=4 => {
                gen::li(&mut w, 5, a.wrapping_sub(64));
                gen::li(&mut w, 6, r.u32());
                w.push(enc::s(64, 6, 5, *r.pick(&[0, 1, 2])));
            }
            5..=9 => {
                gen::li(&mut w, 5, a.wrapping_add(64));
                w.push(enc::i(-64, 5, *r.pick(&[0, 1, 2, 4, 5]), *r.pick(&[0, 6, 7, 5]), 3));
            }
            10 => gen::ecall(&mut w, [*r.pick(&[2u32, 4, 5, 6, 7, 8, 9]), a, r.below(40) as u32, 0]),
            _ => gen::ecall(&mut w, [3, a, 8 * (1 + r.below(5)) as u32, win.wrapping_add(r.below(64) as u32)]),
        }
    }
    // read the whole window back
    gen::li(&mut w, 5, win);
    for k in (-24..72).step_by(4) {
        w.push(enc::i(k, 5, 2, 6, 3));
    }
    gen::halt(&mut w);
    let mut seg = gen::code_seg(code, &w);
    if r.chance(1, 3) {
        // code that is not even readable or is writable data as well: stores must not change it
        seg.flags = X;
        let mut alias = seg.clone();
        alias.flags = R | W;
        segs.push(alias);
    }
    segs.push(seg);
    let tapes = gen::tapes(r, 60);
    Case { entry: code, segs, regs: vec![], tapes, max_steps: 2000 }
}

pub fn c04() -> ! {
    let m = Arc::new(Mon::new("C04"));
    m.watchdog(120, RULE04);
    parallel(cores(), |w| {
        let mut r = m.rng(w);
        for _ in 0..m.n(3000, 150_000) {
            if !m.within(40, 1500) || m.violation_count() > 100 {
                break;
            }
            let c = if r.chance(1, 8) { hashcase(&mut r) } else { gen::halting(&mut r) };
            rec(&m, &c);
        }
        for _ in 0..m.n(300, 10_000) {
            let mut c = gen::free(&mut r);
            c.max_steps = 3000;
            rec(&m, &c);
        }
    });
    // long runs
    for n in [1000u32, 30_000] {
        let mut w = vec![];
        gen::li(&mut w, 5, n);
        gen::li(&mut w, 28, 0x0040_0000);
        w.push(enc::s(0, 5, 28, 2));
        w.push(enc::i(0, 28, 2, 7, 3));
        w.push(enc::r(1, 7, 5, 0, 8, 0x33));
        w.push(enc::i(-1, 5, 0, 5, 0x13));
        w.push(enc::b(-16, 0, 5, 1));
        gen::halt(&mut w);
        rec(&m, &Case { entry: 0, segs: vec![gen::code_seg(0, &w)], regs: vec![], tapes: Tapes::default(), max_steps: 1_000_000 });
    }
    let c = gen::halting(&mut m.rng(77));
    m.sample(json!({"program": describe(&c)}));
    kinds(&m);
    m.finish(RULE04)
}
const RULE04: &str = "each evaluation is a halting program run through the public stepper; every row of the record (clock, pre-state, instruction, operands, result, next pc, memory access, system-call data, halt flag) is compared with an independent interpreter, consecutive rows are chained, and the run is repeated; non-trivial: distinct by executed history";

fn rec(m: &Mon, c: &Case) {
    match record(c) {
        Ok(Some(s)) => {
            tally(m, &s);
            KINDS.lock().unwrap().extend(s.kinds.iter());
        }
        Ok(None) => m.count("programs skipped (no halt within bound)", 1),
        Err((sig, d)) => {
            m.eval();
            m.violation(&sig, d);
        }
    }
}

pub fn c05() -> ! {
    let m = Arc::new(Mon::new("C05"));
    m.watchdog(120, RULE05);
    parallel(cores(), |w| {
        let mut r = m.rng(w);
        for _ in 0..m.n(20_000, 300_000) {
            if !m.within(40, 1500) || m.violation_count() > 100 {
                break;
            }
            let c = tapecase(&mut r);
            both(&m, &c);
        }
    });
    let c = tapecase(&mut m.rng(99));
    m.sample(json!({"program": describe(&c)}));
    m.finish(RULE05)
}
const RULE05: &str = "each evaluation is a program issuing 1-25 tape-read system calls with random tapes, sizes (0, 1, exact, beyond the end, huge) and buffers (aligned, unaligned, overlapping, wrapping), compared with a stream model: delivered bytes, tape positions, registers, all memory, and the recorded device entry; non-trivial: distinct by executed history";

fn both(m: &Mon, c: &Case) {
    run_arch(m, c);
    rec(m, c);
}

fn tapecase(r: &mut Rng) -> Case {
    let code = 0x0200_0000u32;
    let data = *r.pick(&[0x0040_0000u32, 0xffff_ff80, 0]);
    let mut w = vec![];
    let max = *r.pick(&[1, 10, 60, 300]);
    let t = gen::tapes(r, max + 1);
    for _ in 0..1 + r.idx(25) {
        let code = 2 + r.below(8) as u32;
        if code == 3 {
            continue;
        }
        let n = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => 32,
            3 => 33,
            4 => *r.pick(&[u32::MAX, 0x8000_0000, 1000]),
            5 => t.seq[r.idx(4)].len() as u32,
            _ => r.below(20) as u32,
        };
        gen::ecall(&mut w, [code, data.wrapping_add(r.below(128) as u32), n, r.u32()]);
        if r.chance(1, 3) {
            gen::li(&mut w, 5, data);
            w.push(enc::i(r.below(128) as i32, 5, 2, 6, 3));
        }
    }
    gen::halt(&mut w);
    let mut segs = vec![gen::code_seg(code, &w)];
    if data != 0xffff_ff80 && r.chance(1, 2) {
        let b = r.bytes(100);
        segs.push(Seg { p_type: 1, flags: R | W, vaddr: data, memsz: 128, data: b });
    }
    let regs = (1..32).map(|i| (i as u8, r.edge32())).collect();
    Case { entry: code, segs, regs, tapes: t, max_steps: 2000 }
}

pub fn c06() -> ! {
    let m = Arc::new(Mon::new("C06"));
    m.watchdog(120, RULE06);
    parallel(cores(), |w| {
        let mut r = m.rng(w);
        for _ in 0..m.n(800, 20_000) {
            if !m.within(40, 1500) || m.violation_count() > 100 {
                break;
            }
            let c = hashcase(&mut r);
            both(&m, &c);
        }
        // native hashing API against the reference
        for _ in 0..m.n(150, 5000) {
            let n = 8 * r.idx(20);
            let b = r.bytes(n);
            if n > 0 {
                m.eval();
                match guard(|| mozak_sdk::native::poseidon::poseidon2_hash_no_pad(&b).inner()) {
                    Ok(h) if h == monlib::poseidon::hash_bytes(&b) => m.nontrivial(monlib::fnv(&h)),
                    x => m.violation("native-hash", format!("input {} gives {x:?}", monlib::hex(&b))),
                }
                m.count("native hashes compared", 1);
            }
        }
    });
    let c = hashcase(&mut m.rng(99));
    m.sample(json!({"program": describe(&c)}));
    m.finish(RULE06)
}
const RULE06: &str = "each evaluation is a program with 1-4 Poseidon2 system calls over random, aliasing and overlapping buffers of 8..800 bytes; output memory, untouched memory, registers and every recorded sponge state are compared with an independent Poseidon2 implementation (constants regenerated from the Grain LFSR); non-trivial: distinct by executed history";

fn hashcase(r: &mut Rng) -> Case {
    let code = 0x0200_0000u32;
    let data = 0x0040_0000u32;
    let mut w = vec![];
    for _ in 0..1 + r.idx(4) {
        let n = 8 * match r.below(6) {
            0 => 1,
            1 => 4,
            2 => 8,
            3 => 1 + r.below(100) as u32,
            _ => 1 + r.below(12) as u32,
        };
        let p = match r.below(6) {
            // buffers running over the end of the address space continue at zero
            0 => 0xffff_ffffu32.wrapping_sub(r.below(u64::from(n) + 8) as u32),
            _ => data + r.below(300) as u32,
        };
        let o = match r.below(4) {
            0 => p.wrapping_add(r.below(u64::from(n)) as u32),
            1 => p.wrapping_sub(r.below(32) as u32),
            2 => 0xffff_ffe0u32.wrapping_add(r.below(32) as u32),
            _ => data + 600 + r.below(64) as u32,
        };
        gen::ecall(&mut w, [3, p, n, o]);
    }
    gen::halt(&mut w);
    let dn = 400 + r.idx(600);
    Case { entry: code, segs: vec![gen::code_seg(code, &w), Seg { p_type: 1, flags: R | W, vaddr: data, memsz: 1024, data: r.bytes(dn) }], regs: vec![], tapes: Tapes::default(), max_steps: 500 }
}

pub fn c08() -> ! {
    let m = Arc::new(Mon::new("C08"));
    m.watchdog(120, RULE08);
    parallel(cores(), |w| {
        let mut r = m.rng(w);
        for _ in 0..m.n(20_000, 200_000) {
            if !m.within(40, 1500) || m.violation_count() > 100 {
                break;
            }
            let (c, kind) = endcase(&mut r);
            ending(&m, &c, kind);
        }
    });
    let (c, k) = endcase(&mut m.rng(99));
    m.sample(json!({"ending": k, "program": describe(&c)}));
    m.finish(RULE08)
}
const RULE08: &str = "each evaluation is a program with a chosen ending (halt with arbitrary register and memory state, panic call with any message incl. wrapping buffers, unknown call numbers, jumps to misaligned, absent or undecodable code) run through the public stepper; the result, the message and the last rows are compared with the specified ending; non-trivial: distinct by program";

fn endcase(r: &mut Rng) -> (Case, &'static str) {
    let code = *r.pick(&[0u32, 0x1000, 0x8000_0000]);
    let data = 0x0040_0000u32;
    let mut w = vec![];
    for _ in 0..r.idx(6) {
        w.push(gen::alu(r));
    }
    let mut segs = vec![];
    let mut msg = vec![];
    let kind = match r.below(5) {
        0 => {
            // an arbitrary state around the halt
            w.push(enc::i(0, 0, 0, 10, 0x13));
            w.push(enc::ECALL);
            "halt"
        }
        1 => {
            let s = *r.pick(&["", "a", "assertion failed: left == right", "héllo – 世界 💥", "\u{0}\n\t"]);
            msg = s.as_bytes().to_vec();
            if r.chance(1, 4) {
                let n = r.idx(40);
                msg = r.bytes(n);
            }
            let at = if r.chance(1, 5) { 0u32.wrapping_sub(msg.len() as u32) } else { data + r.below(9) as u32 };
            let at = if msg.is_empty() { data } else { at };
            if at >= data && at < data + 64 {
                segs.push(Seg { p_type: 1, flags: *r.pick(&[R, R | W]), vaddr: at, memsz: msg.len() as u32, data: msg.clone() });
            } else {
                // written at run time, up to the very last byte of the address space
                for (i, b) in msg.iter().enumerate() {
                    gen::li(&mut w, 5, at.wrapping_add(i as u32));
                    gen::li(&mut w, 6, (*b).into());
                    w.push(enc::s(0, 6, 5, 0));
                }
            }
            gen::ecall(&mut w, [1, at, msg.len() as u32, 0]);
            "panic"
        }
        2 => {
            for _ in 0..1 + r.idx(5) {
                let n = match r.below(3) {
                    0 => 11 + r.below(20) as u32,
                    1 => r.edge32().max(11),
                    _ => r.u32().max(11),
                };
                gen::ecall(&mut w, [n, r.edge32(), r.edge32(), r.edge32()]);
            }
            gen::halt(&mut w);
            "unknown"
        }
        3 => {
            let t = *r.pick(&[code.wrapping_add(2), code.wrapping_add(0x0010_0000), 0xffff_fffc, data, 0x0123_4566]);
            gen::li(&mut w, 5, t);
            w.push(enc::i(0, 5, 0, 1, 0x67));
            gen::halt(&mut w);
            if r.chance(1, 2) {
                segs.push(Seg { p_type: 1, flags: R | W, vaddr: data, memsz: 8, data: enc::li(5, 1).iter().flat_map(|x| x.to_le_bytes()).collect() });
            }
            "no-code"
        }
        _ => {
            let bad = loop {
                let x = r.u32();
                if monlib::refvm::decode(x) == Err(true) {
                    break x;
                }
            };
            w.push(bad);
            gen::halt(&mut w);
            "illegal"
        }
    };
    segs.push(gen::code_seg(code, &w));
    let mut regs: Vec<(u8, u32)> = (1..32).map(|i| (i as u8, r.edge32())).collect();
    if kind == "halt" {
        regs.retain(|(i, _)| *i != 0);
    }
    let mut tapes = Tapes::default();
    tapes.seq[0] = msg;
    (Case { entry: code, segs, regs, tapes, max_steps: 2000 }, kind)
}

fn ending(m: &Mon, c: &Case, kind: &str) {
    m.eval();
    m.count(&format!("endings: {kind}"), 1);
    let (program, st, mut r) = match lockstep::boot(c) {
        Ok(x) => x,
        Err((a, b)) => return m.violation(&a, b),
    };
    m.nontrivial(monlib::fnv(describe(c).as_bytes()));
    let mut n = 0;
    let trap = loop {
        match r.step() {
            Ok(_) => n += 1,
            Err(t) => break Some(t),
        }
        if r.halted {
            break None;
        }
        if n > c.max_steps {
            return m.count("skipped", 1);
        }
    };
    let got = guard(|| step(&program, st));
    let bad = |sig: &str, d: String| m.violation(&format!("{sig}/{kind}"), format!("{d}\n{}", describe(c)));
    match (trap, got) {
        (None, Ok(Ok(rec))) => {
            let l = rec.executed.len();
            if l as u64 != n {
                return bad("rows", format!("{l} rows, {n} steps"));
            }
            for (i, row) in rec.executed.iter().enumerate() {
                if row.aux.will_halt != (i + 1 == l) {
                    return bad("halt-flag", format!("row {i} of {l} has halt flag {}", row.aux.will_halt));
                }
            }
            let (a, b) = (&rec.executed[l - 1].state, &rec.last_state);
            if !b.has_halted() || a.pc != b.pc || a.registers != b.registers || a.memory.data != b.memory.data || b.clk != a.clk + 1 || a.private_tape.read_index != b.private_tape.read_index {
                return bad("halt-state", format!("state changed by halting: {:?} -> {:?}", (a.pc, a.clk), (b.pc, b.clk)));
            }
            if b.registers != r.regs {
                return bad("final-registers", format!("{:x?} must be {:x?}", b.registers, r.regs));
            }
            if let Err((s, d)) = lockstep::same_memory(b, &r) {
                return bad(&s, d);
            }
        }
        (None, Ok(Err(e))) => bad("halting-run-refused", e.to_string()),
        (None, Err(e)) => bad("halting-run-crashed", e),
        (Some(Trap::Panic(msg)), got) => match got {
            Err(e) => {
                if let Ok(s) = std::str::from_utf8(&msg) {
                    if !e.contains(s) {
                        bad("panic-message", format!("aborted with {e:?}, the program's message is {s:?}"));
                    }
                }
            }
            Ok(Err(e)) => {
                if let Ok(s) = std::str::from_utf8(&msg) {
                    if !e.to_string().contains(s) {
                        bad("panic-message", format!("refused with {e:?}, the program's message is {s:?}"));
                    }
                }
            }
            Ok(Ok(_)) => bad("panic-ignored", "the run ended normally".into()),
        },
        (Some(t @ (Trap::NoCode(_) | Trap::Illegal(..))), got) => match got {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => bad("trap-ignored", format!("{t:?}")),
            Err(e) => bad("trap-crashes", format!("{t:?}: {e}")),
        },
        (Some(_), _) => {}
    }
}
