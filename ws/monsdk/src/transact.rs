//! C12, C13, C15: whole cross-program transactions, recorded natively and replayed by guests.
use std::collections::BTreeSet;
use std::process::Command;

use clirun::runner::raw_tapes_from_system_tape;
use mozak_runner::state::RawTapes;
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, EventType, Poseidon2Hash, StateAddress};
use monlib::{cores, guard, hash_dbg, hex, json, parallel, Mon, Rng, Value};

use crate::guest::{self, End};
use crate::inguest::prefixed;
use crate::refs::{self, Canon};
use crate::scenario::{pid, rkyv_bytes, script_bytes, transcript, Ev, Id, Log, Op, Scn, NUL};

fn scn(kind: &str, seed: u64) -> Scn { Scn::gen(&mut Rng::new(seed), kind == "guest") }

/// Performs a scenario natively, in `dir`.
pub fn child(dir: &str, kind: &str, seed: u64) {
    std::env::set_current_dir(dir).unwrap();
    let null_actor = kind == "null";
    if null_actor {
        // nobody may emit or write
        let ev = Ev { ty: 0, addr: [1; 8], owner: NUL, data: vec![1] };
        let r = std::panic::catch_unwind(|| {
            if seed % 2 == 0 {
                mozak_sdk::event_emit(ev.sdk());
            } else {
                let _ = mozak_sdk::write(&mozak_sdk::InputTapeType::PublicTape, &[1]);
            }
        });
        if r.is_ok() {
            println!("BAD: action without identity accepted");
            std::process::exit(9);
        }
        std::process::exit(0);
    }
    scn(kind, seed).perform();
    mozak_sdk::native::dump_proving_files();
}

struct Scratch(String);
impl Scratch {
    fn new(m: &Mon, n: u64) -> Scratch {
        let d = format!("{}/out/{}/scratch-{}-{n}", m.root, m.id, std::process::id());
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

fn record(dir: &str, kind: &str, seed: u64) -> Result<Vec<u8>, String> {
    let o = Command::new(std::env::current_exe().unwrap()).args(["child", dir, kind, &seed.to_string()]).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        return Err(format!("native run ended with {}: {}{}", o.status, String::from_utf8_lossy(&o.stdout), e.lines().take(6).collect::<Vec<_>>().join(" / ")));
    }
    if kind == "null" {
        return Ok(vec![]);
    }
    std::fs::read(format!("{dir}/out/tape.json")).map_err(|e| e.to_string())
}

fn unhex(s: &Value) -> Option<Vec<u8>> {
    let s = s.as_str()?.strip_prefix("0x")?;
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

pub fn c15() {
    const RULE: &str = "one evaluation = one recorded native action (call, event, tape write) of a random call tree compared with an independent log of who did what when; distinct = distinct scenarios";
    let m = Mon::new("C15");
    let n = m.n(40_000, 300_000);
    m.assume("identity changes are balanced, as the documentation asks");
    parallel(cores(), |w| {
        for i in (w..n).step_by(cores() as usize) {
            let seed = m.rng(i).u64();
            let d = Scratch::new(&m, w);
            if i % 50 == 0 {
                m.eval();
                if let Err(e) = record(&d.0, "null", i / 50) {
                    m.violation("null-actor", e);
                }
                m.count("anonymous actions refused", 1);
            }
            let s = scn("native", seed);
            let l = s.log();
            let tape = match record(&d.0, "native", seed) {
                Ok(t) => t,
                Err(e) => {
                    m.violation("native-run", format!("seed {seed}: {e}\n{s:?}"));
                    continue;
                }
            };
            m.nontrivial(hash_dbg(&s));
            if let Err(e) = compare(&m, &tape, &l) {
                m.violation(e.0, format!("{}\nseed {seed}\n{s:?}", e.1));
            }
            m.count("calls", l.calls.len() as u64);
            if i < 3 {
                m.sample(json!({"calls": l.calls.len(), "programs": s.pids.len(), "events": l.events.values().map(Vec::len).sum::<usize>()}));
            }
        }
    });
    m.finish(RULE);
}

/// The dumped tape, read without the SDK, against the model's log.
fn compare(m: &Mon, tape: &[u8], l: &Log) -> Result<(), (&'static str, String)> {
    let v: Value = serde_json::from_slice(tape).map_err(|e| ("tape-json", e.to_string()))?;
    let bad = |w: &'static str| move || (w, "unreadable tape".to_string());
    let calls = v["call_tape"]["global_calltape"].as_array().ok_or_else(bad("tape-json"))?;
    if calls.len() != l.calls.len() {
        return Err(("calls", format!("{} calls recorded, {} made", calls.len(), l.calls.len())));
    }
    for (i, (c, e)) in calls.iter().zip(&l.calls).enumerate() {
        m.eval();
        let f = |k: &str| unhex(&c[k]).unwrap_or_default();
        for (k, want) in [("caller", e.caller.to_vec()), ("callee", e.callee.to_vec()), ("argument", rkyv_bytes(e.ka, &e.arg)), ("return_", rkyv_bytes(e.kr, &e.ret))] {
            if f(k) != want {
                return Err(("calls", format!("call {i}: {k} is {} instead of {}", hex(&f(k)), hex(&want))));
            }
        }
    }
    let mut ids: BTreeSet<Id> = BTreeSet::new();
    let ev = v["event_tape"]["individual_event_tapes"].as_object().ok_or_else(bad("tape-json"))?;
    for (k, t) in ev {
        let id: Id = unhex(&json!(k)).and_then(|x| x.try_into().ok()).ok_or_else(bad("tape-json"))?;
        ids.insert(id);
        let want = l.events.get(&id).cloned().unwrap_or_default();
        let got = t["temporal_ordering"].as_array().ok_or_else(bad("tape-json"))?;
        if got.len() != want.len() {
            return Err(("events", format!("{} events recorded for {k}, {} emitted", got.len(), want.len())));
        }
        for (g, e) in got.iter().zip(&want) {
            m.eval();
            m.count("events", 1);
            let o = &g[0]["object"];
            let ty = ["Write", "Ensure", "Read", "GiveOwner", "TakeOwner"].iter().position(|t| Some(*t) == g[0]["type_"].as_str());
            let x = Ev {
                ty: ty.unwrap_or(9) as u8,
                addr: unhex(&o["address"]).and_then(|x| x.try_into().ok()).unwrap_or_default(),
                owner: unhex(&o["constraint_owner"]).and_then(|x| x.try_into().ok()).unwrap_or_default(),
                data: unhex(&o["data"]).unwrap_or_default(),
            };
            if x != *e {
                return Err(("events", format!("{k}: recorded {x:?} emitted {e:?}")));
            }
            let c = Canon::of(e);
            if unhex(&g[1]["address"]) != Some(c.addr.to_vec()) || unhex(&g[1]["value"]) != Some(c.value.to_vec()) || g[1]["type_"] != g[0]["type_"] {
                return Err(("events", format!("{k}: canonical form of {e:?} recorded as {}", g[1])));
            }
        }
    }
    if let Some(p) = l.events.iter().find(|(k, v)| !v.is_empty() && !ids.contains(*k)) {
        return Err(("events", format!("the events of {} are missing", hex(p.0))));
    }
    for (tape, want) in [("public_input_tape", &l.public), ("private_input_tape", &l.private)] {
        let t = v[tape]["individual_raw_tapes"].as_object().ok_or_else(bad("tape-json"))?;
        let mut seen = BTreeSet::new();
        for (k, b) in t {
            m.eval();
            m.count("tapes", 1);
            let id: Id = unhex(&json!(k)).and_then(|x| x.try_into().ok()).ok_or_else(bad("tape-json"))?;
            seen.insert(id);
            let b = unhex(b).unwrap_or_default();
            let w = want.get(&id).cloned().unwrap_or_default();
            if b != w {
                return Err(("writes", format!("{tape} of {k} is {} instead of {}", hex(&b), hex(&w))));
            }
        }
        if let Some(p) = want.iter().find(|(k, v)| !v.is_empty() && !seen.contains(*k)) {
            return Err(("writes", format!("{tape} of {} is missing", hex(p.0))));
        }
    }
    Ok(())
}

pub fn c12() {
    const RULE: &str = "one evaluation = one guest program replaying its part of a natively recorded transaction in the VM, its log compared byte for byte with the model; distinct = distinct (scenario, program) pairs";
    let m = Mon::new("C12");
    let (prog, _) = guest::load("actor");
    let n = m.n(220, 12_000);
    m.assume("no program calls itself; every caller other than the transaction's originator is itself called (the cast list)");
    parallel(cores(), |w| {
        for i in (w..n).step_by(cores() as usize) {
            if !m.within(90, 3000) {
                break;
            }
            let seed = m.rng(i).u64();
            let d = Scratch::new(&m, w);
            let s = scn("guest", seed);
            let l = s.log();
            let tape = match record(&d.0, "guest", seed) {
                Ok(t) => t,
                Err(e) => {
                    m.violation("native-run", format!("seed {seed}: {e}\n{s:?}"));
                    continue;
                }
            };
            m.count("calls", l.calls.len() as u64);
            for p in &s.pids {
                let ops = &l.scripts[p];
                let desc = || format!("scenario seed {seed}, program {}\noperations {ops:?}\nall calls {:?}", hex(p), l.calls.iter().map(|c| (hex(&c.caller[..3]), hex(&c.callee[..3]))).collect::<Vec<_>>());
                let tapes = match guard(|| raw_tapes_from_system_tape(Some(&tape[..]), pid(*p))) {
                    Ok(t) => t,
                    Err(e) => {
                        m.violation("tape-conversion", format!("{e}\n{}", desc()));
                        continue;
                    }
                };
                let empty = vec![];
                let public = l.public.get(p).unwrap_or(&empty);
                let private = [script_bytes(ops), l.private.get(p).unwrap_or(&empty).clone()].concat();
                let canon: Vec<Canon> = l.events.get(p).map(|e| e.iter().map(Canon::of).collect()).unwrap_or_default();
                for (what, got, want) in [
                    ("public tape", tapes.public_tape.clone(), prefixed(public)),
                    ("private tape", tapes.private_tape.clone(), prefixed(&private)),
                    ("identity", tapes.self_prog_id_tape.to_vec(), p.to_vec()),
                    ("event commitment", tapes.events_commitment_tape.to_vec(), refs::events_root(&canon).to_vec()),
                    ("cast list commitment", tapes.cast_list_commitment_tape.to_vec(), refs::cast_root(l.calls.iter().map(|c| c.callee)).to_vec()),
                ] {
                    if got != want {
                        m.violation("raw-tapes", format!("{what} is {} instead of {}\n{}", hex(&got), hex(&want), desc()));
                    }
                }
                let run = guest::run(&prog, tapes, 60_000_000);
                m.eval();
                m.nontrivial(hash_dbg(&(seed, p)));
                m.count("guest instructions", run.steps);
                for o in ops {
                    m.count(match o {
                        Op::Recv(_, _, None) => "ends of mailbox",
                        Op::Recv(..) => "received calls",
                        Op::Send(..) => "sent calls",
                        Op::Emit(_) => "events",
                        Op::Read(..) => "tape reads",
                        Op::Len(_) => "length queries",
                    }, 1);
                }
                let e = transcript(ops, public, &private);
                if !matches!(run.end, End::Halt(_)) {
                    m.violation("honest-rejected", format!("the guest did not halt: {:?} after logging {} of {} bytes\n{}", run.end, run.log.len(), e.len(), desc()));
                } else if run.log != e {
                    let at = run.log.iter().zip(&e).position(|(a, b)| a != b).unwrap_or(run.log.len().min(e.len()));
                    m.violation("guest-saw-other", format!("from byte {at}: guest {} expected {}\n{}", hex(&run.log[at..run.log.len().min(at + 40)]), hex(&e[at..e.len().min(at + 40)]), desc()));
                }
            }
            if i < 3 {
                m.sample(json!({"programs": s.pids.len(), "calls": l.calls.len(), "operations": l.scripts.values().map(Vec::len).sum::<usize>()}));
            }
        }
    });
    m.finish(RULE);
}

// ---- C13 ----
#[derive(Clone, Debug, PartialEq)]
struct Call {
    from: Id,
    to: Id,
    ka: u8,
    kr: u8,
    arg: Vec<u8>,
    ret: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
struct View {
    calls: Vec<Call>,
    hints: Vec<(Canon, u32)>,
    flip: Option<(u8, usize, u8)>,
}

fn sdk_event(c: &Canon) -> CanonicalEvent {
    CanonicalEvent {
        address: StateAddress(c.addr),
        type_: [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner][c.ty as usize],
        value: Poseidon2Hash(c.value),
    }
}

impl View {
    fn of(l: &Log, p: &Id) -> View {
        let c: Vec<Canon> = l.events.get(p).map(|e| e.iter().map(Canon::of).collect()).unwrap_or_default();
        let order = refs::canonical_order(&c);
        let mut inv = vec![0; c.len()];
        for (k, t) in order.iter().enumerate() {
            inv[*t] = k as u32;
        }
        View {
            calls: l.calls.iter().map(|c| Call { from: c.caller, to: c.callee, ka: c.ka, kr: c.kr, arg: c.arg.clone(), ret: c.ret.clone() }).collect(),
            hints: order.iter().zip(inv).map(|(i, h)| (c[*i], h)).collect(),
            flip: None,
        }
    }

    fn tapes(&self, me: &Id, script: &[u8]) -> RawTapes {
        let calls: Vec<CrossProgramCall> = self
            .calls
            .iter()
            .map(|c| CrossProgramCall { caller: pid(c.from), callee: pid(c.to), argument: rkyv_bytes(c.ka, &c.arg).into(), return_: rkyv_bytes(c.kr, &c.ret).into() })
            .collect();
        let hints: Vec<CanonicalOrderedTemporalHints> = self.hints.iter().map(|(c, h)| CanonicalOrderedTemporalHints(sdk_event(c), *h)).collect();
        let cast: BTreeSet<Id> = self.calls.iter().map(|c| c.to).collect();
        // the commitments go with these tapes, unless they are what is damaged
        let mut ev = merkleize(hints.iter().map(|x| (u64::from_le_bytes(x.0.address.inner()), x.0.canonical_hash())).collect()).inner();
        let mut cl = merkleize(cast.iter().enumerate().map(|(i, x)| (i as u64, Poseidon2Hash(*x))).collect()).inner();
        if let Some((which, at, bit)) = self.flip {
            let t = if which == 0 { &mut ev } else { &mut cl };
            t[at] ^= 1 << bit;
        }
        RawTapes {
            private_tape: prefixed(script),
            public_tape: prefixed(&[]),
            call_tape: prefixed(&rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&calls).unwrap()),
            event_tape: prefixed(&rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&hints).unwrap()),
            self_prog_id_tape: *me,
            events_commitment_tape: ev,
            cast_list_commitment_tape: cl,
        }
    }

    /// Must the guest `me`, doing `ops`, refuse these tapes? None: it would read a message of
    /// another type than the one sent, and nothing is known.
    fn verdict(&self, me: &Id, ops: &[Op]) -> Option<Result<(), &'static str>> {
        let cast: BTreeSet<Id> = self.calls.iter().map(|c| c.to).collect();
        let (mut at, mut ev) = (0, 0);
        let mut seen = BTreeSet::new();
        for op in ops {
            match op {
                Op::Recv(ka, kr, _) => {
                    while let Some(c) = self.calls.get(at) {
                        at += 1;
                        if c.from == *me {
                            return Some(Err("a call the guest never sent"));
                        }
                        if c.to == *me {
                            if c.from != NUL && !cast.contains(&c.from) {
                                return Some(Err("a caller outside of the cast list"));
                            }
                            if (c.ka, c.kr) != (*ka, *kr) {
                                return None;
                            }
                            break;
                        }
                    }
                }
                Op::Send(to, ka, kr, arg, _) => {
                    while self.calls.get(at).is_some_and(|c| c.from != *me && c.to != *me) {
                        at += 1;
                    }
                    let Some(c) = self.calls.get(at) else { return Some(Err("a sent call is missing")) };
                    at += 1;
                    if c.from != *me {
                        return Some(Err("another caller"));
                    }
                    if c.to != *to {
                        return Some(Err("another callee"));
                    }
                    if (c.ka, c.kr) != (*ka, *kr) {
                        return None;
                    }
                    if c.arg != *arg {
                        return Some(Err("another argument"));
                    }
                }
                Op::Emit(e) => {
                    let Some((_, h)) = self.hints.get(ev) else { return Some(Err("an emitted event is missing")) };
                    let Some((c, _)) = self.hints.get(*h as usize) else { return Some(Err("hint out of range")) };
                    if !seen.insert(*h) {
                        return Some(Err("hint used twice"));
                    }
                    if *c != Canon::of(e) {
                        return Some(Err("another event"));
                    }
                    ev += 1;
                }
                _ => {}
            }
        }
        Some(if at != self.calls.len() {
            Err("call tape not consumed")
        } else if ev != self.hints.len() {
            Err("event tape not consumed")
        } else if let Some((w, ..)) = self.flip {
            Err(if w == 0 { "event commitment" } else { "cast list commitment" })
        } else {
            Ok(())
        })
    }
}

fn mutate(r: &mut Rng, v: &mut View, ops: &mut Vec<Op>, me: &Id, pids: &[Id]) -> &'static str {
    let n = v.calls.len();
    // prefer messages of this guest
    let mine: Vec<usize> = (0..n).filter(|i| v.calls[*i].from == *me || v.calls[*i].to == *me).collect();
    let out: Vec<usize> = (0..n).filter(|i| v.calls[*i].from == *me).collect();
    let pick = |r: &mut Rng| if !out.is_empty() && r.chance(1, 2) { *r.pick(&out) } else if !mine.is_empty() && r.chance(3, 4) { *r.pick(&mine) } else { r.idx(n.max(1)) };
    let stranger = |r: &mut Rng| match r.below(4) {
        0 => r.arr(),
        1 => NUL,
        2 => *me,
        _ => *r.pick(pids),
    };
    let k = v.hints.len();
    match r.below(24) {
        0 if n > 0 => {
            let i = pick(r);
            v.calls.remove(i);
            "drop call"
        }
        1 if n > 0 => {
            let i = pick(r);
            let c = v.calls[i].clone();
            v.calls.insert(if r.chance(1, 2) { i } else { r.idx(n + 1) }, c);
            "repeat call"
        }
        2 if n > 1 => {
            let (i, j) = (pick(r), pick(r));
            v.calls.swap(i, j);
            "swap calls"
        }
        3 if n > 0 => {
            let i = pick(r);
            v.calls[i].to = stranger(r);
            "other callee"
        }
        4 if n > 0 => {
            let i = pick(r);
            v.calls[i].from = stranger(r);
            "other caller"
        }
        5 if n > 0 => {
            let i = pick(r);
            let (ka, _) = (v.calls[i].ka, 0);
            v.calls[i].arg = other_value(r, ka, &v.calls[i].arg.clone());
            "other argument"
        }
        6 | 7 => {
            let (ka, kr) = (r.below(5) as u8, r.below(5) as u8);
            let to = stranger(r);
            let at = r.idx(n + 1);
            v.calls.insert(at, Call { from: *me, to, ka, kr, arg: other_value(r, ka, &[]), ret: other_value(r, kr, &[]) });
            "forged call from the guest"
        }
        8 | 9 => {
            // a copy of a received message, or one shaped for the end of the mailbox
            let tmpl = v.calls.iter().filter(|c| c.to == *me).cloned().collect::<Vec<_>>();
            let mut c = if tmpl.is_empty() { Call { from: NUL, to: *me, ka: 0, kr: 0, arg: vec![1], ret: vec![2] } } else { r.pick(&tmpl).clone() };
            c.from = stranger(r);
            let at = r.idx(n + 1);
            v.calls.insert(at, c);
            "forged call to the guest"
        }
        10 if n > 0 => {
            v.calls.truncate(r.idx(n));
            "truncate calls"
        }
        11 if k > 0 => {
            let i = r.idx(k);
            v.hints.remove(i);
            "drop event"
        }
        12 if k > 0 => {
            let i = r.idx(k);
            let e = v.hints[i];
            v.hints.insert(r.idx(k + 1), e);
            "repeat event"
        }
        13 if k > 1 => {
            let (i, j) = (r.idx(k), r.idx(k));
            let t = v.hints[i].0;
            v.hints[i].0 = v.hints[j].0;
            v.hints[j].0 = t;
            "swap events"
        }
        14 if k > 1 => {
            let (i, j) = (r.idx(k), r.idx(k));
            let t = v.hints[i].1;
            v.hints[i].1 = v.hints[j].1;
            v.hints[j].1 = t;
            "swap hints"
        }
        15 if k > 0 => {
            let i = r.idx(k);
            v.hints[i].1 = if r.chance(1, 2) { r.edge32() } else { r.idx(k + 1) as u32 };
            "other hint"
        }
        16 if k > 0 => {
            let i = r.idx(k);
            v.hints[i].0.addr[r.idx(8)] ^= 1 << r.below(8);
            "other address"
        }
        17 if k > 0 => {
            let i = r.idx(k);
            v.hints[i].0.ty = (v.hints[i].0.ty + 1 + r.below(4) as u8) % 5;
            "other event type"
        }
        18 if k > 0 => {
            let i = r.idx(k);
            v.hints[i].0.value[r.idx(32)] ^= 1 << r.below(8);
            "other event value"
        }
        19 => {
            let c = Canon { addr: r.arr(), ty: r.below(5) as u8, value: r.arr() };
            v.hints.push((c, k as u32));
            "extra event"
        }
        20 => {
            v.flip = Some((r.below(2) as u8, r.idx(32), r.below(8) as u8));
            "other commitment"
        }
        21 if ops.len() > 1 => {
            ops.truncate(r.idx(ops.len()));
            "guest stops early"
        }
        22 => {
            // the guest does something else than it did when recorded
            let at: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Send(..) | Op::Emit(_))).collect();
            if at.is_empty() {
                return "";
            }
            let i = *r.pick(&at);
            match &mut ops[i] {
                Op::Send(to, ka, _, arg, _) => {
                    if r.chance(1, 2) {
                        *to = stranger(r);
                    } else {
                        *arg = other_value(r, *ka, &arg.clone());
                    }
                }
                Op::Emit(e) => match r.below(3) {
                    0 => e.addr[r.idx(8)] ^= 1 << r.below(8),
                    1 => e.ty = (e.ty + 1) % 5,
                    _ => e.data.push(0),
                },
                _ => {}
            }
            "guest acts otherwise"
        }
        _ => {
            let at: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Send(..) | Op::Emit(_))).collect();
            if at.is_empty() {
                return "";
            }
            let i = *r.pick(&at);
            match r.below(3) {
                0 => {
                    ops.remove(i);
                    "guest omits an action"
                }
                1 => {
                    let o = ops[i].clone();
                    ops.insert(i, o);
                    "guest repeats an action"
                }
                _ => {
                    let j = *r.pick(&at);
                    ops.swap(i, j);
                    "guest reorders actions"
                }
            }
        }
    }
}

/// Another value of this type, often close to the given one.
fn other_value(r: &mut Rng, kind: u8, old: &[u8]) -> Vec<u8> {
    use crate::msgs::{Flat, Msg, Rd, Ret};
    let mut o = vec![];
    match kind {
        0 => r.u8().enc(&mut o),
        1 => {
            let x = if old.is_empty() { r.u64() } else { u64::dec(&mut Rd(old)) ^ (1 << r.below(64)) };
            x.enc(&mut o);
        }
        2 => {
            let mut v = if old.is_empty() { vec![] } else { Vec::<u8>::dec(&mut Rd(old)) };
            if !v.is_empty() && r.chance(1, 2) {
                let i = r.idx(v.len());
                v[i] ^= 1 << r.below(8);
            } else {
                v.push(r.u8());
            }
            v.enc(&mut o);
        }
        3 => {
            let mut x = if old.is_empty() { Msg::default() } else { Msg::dec(&mut Rd(old)) };
            match r.below(5) {
                0 => x.a ^= 1 << r.below(32),
                1 => x.b.push(0),
                2 => x.c = if x.c.is_some() { None } else { Some("x".into()) },
                3 => x.d.0 ^= 1 << r.below(64),
                _ => x.d.1 ^= 1 << r.below(8),
            }
            x.enc(&mut o);
        }
        _ => {
            let x = if old.is_empty() { Ret::Noop } else { Ret::dec(&mut Rd(old)) };
            match x {
                Ret::Noop => Ret::Num(0),
                Ret::Id(mut i) => {
                    i[r.idx(32)] ^= 1 << r.below(8);
                    Ret::Id(i)
                }
                Ret::Blob(mut b) => {
                    b.push(1);
                    Ret::Blob(b)
                }
                Ret::Num(n) => Ret::Num(n ^ (1 << r.below(64))),
            }
            .enc(&mut o);
        }
    }
    o
}

pub fn c13() {
    const RULE: &str = "one evaluation = one guest run over tapes that deviate from its behaviour (with matching commitments, unless those deviate), which must not halt cleanly; distinct = distinct (tapes, script) pairs";
    let m = Mon::new("C13");
    let (prog, _) = guest::load("actor");
    let n = m.n(1500, 80_000);
    parallel(cores(), |w| {
        for i in (w..n).step_by(cores() as usize) {
            if !m.within(90, 3000) {
                break;
            }
            let mut r = m.rng(i);
            let s = Scn::gen(&mut Rng::new(r.u64()), true);
            let l = s.log();
            // a program that does something, if there is one
            let busy: Vec<Id> = s.pids.iter().filter(|p| l.scripts[*p].iter().any(|o| matches!(o, Op::Send(..) | Op::Emit(_)))).copied().collect();
            let me = if busy.is_empty() { *r.pick(&s.pids) } else { *r.pick(&busy) };
            let honest: Vec<Op> = l.scripts[&me].iter().filter(|o| !matches!(o, Op::Read(..) | Op::Len(_))).cloned().collect();
            let hv = View::of(&l, &me);
            if hv.verdict(&me, &honest) != Some(Ok(())) {
                m.violation("harness", format!("the model refuses an honest tape: {honest:?} {hv:?}"));
                continue;
            }
            let mut ops = honest.clone();
            let mut v = hv.clone();
            let mut what = mutate(&mut r, &mut v, &mut ops, &me, &s.pids);
            if r.chance(1, 8) {
                let w2 = mutate(&mut r, &mut v, &mut ops, &me, &s.pids);
                if !w2.is_empty() {
                    what = w2;
                }
            }
            if v == hv && ops == honest {
                continue;
            }
            let reason = match v.verdict(&me, &ops) {
                None => {
                    m.count("skipped: message of another type", 1);
                    continue;
                }
                Some(Ok(())) => {
                    m.count("skipped: equivalent change", 1);
                    continue;
                }
                Some(Err(e)) => e,
            };
            // control: one in eight honest runs, so that refusals are known to come from the deviation
            if i % 8 == 0 {
                let run = guest::run(&prog, hv.tapes(&me, &script_bytes(&honest)), 60_000_000);
                m.count(if matches!(run.end, End::Halt(_)) { "controls accepted" } else { "controls refused" }, 1);
            }
            let run = guest::run(&prog, v.tapes(&me, &script_bytes(&ops)), 60_000_000);
            m.eval();
            m.nontrivial(hash_dbg(&(&v, &ops)));
            m.count(&format!("deviation: {what}"), 1);
            m.count(&format!("reason: {reason}"), 1);
            m.count("guest instructions", run.steps);
            if !matches!(run.end, End::Abort(_)) {
                m.violation(&format!("accepted: {reason}"), format!("mutation: {what}; the guest {} did not abort: {:?}\noperations {ops:?}\ntapes {v:?}\nhonest operations {honest:?}\nhonest tapes {hv:?}", hex(&me), run.end));
            }
            if i < 3 {
                m.sample(json!({"deviation": what, "reason": reason, "ended": format!("{:?}", run.end)}));
            }
        }
    });
    m.finish(RULE);
}
