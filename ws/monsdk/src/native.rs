//! C10 (Merkle roots), C14 (event ordering), C19 (round trips): native SDK against references.
use std::collections::BTreeMap;
use std::sync::Arc;

use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, Event, Poseidon2Hash, ProgramIdentifier, RawMessage, StateAddress, StateObject, SystemTape};
use mozak_sdk::native::OrderedEvents;
use monlib::{cores, fnv, guard, hash_dbg, hex, json, parallel, Mon, Rng};
use rkyv::rancor::{Panic, Strategy};
use rkyv::Deserialize;

use crate::refs::{self, Canon};
use crate::scenario::{pid, raddrs, rbytes, Ev, Id};

fn addr_list(r: &mut Rng) -> Vec<u64> {
    let n = match r.below(10) {
        0 => r.below(3),
        1 => r.range(30, 80),
        _ => r.range(2, 14),
    };
    let base = r.u64();
    let style = r.below(6);
    (0..n)
        .map(|_| match style {
            0 => r.u64(),
            1 => r.below(8),
            2 => base ^ (1 << r.below(64)),
            3 => base ^ (r.below(4) << r.below(63)),
            4 => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1]),
            _ => (base & !0xff) | r.below(6),
        })
        .collect()
}

pub fn c10() {
    const RULE: &str = "one evaluation = one list of addressed hashes merkleized by the SDK and by the recursive reference trie (or a mutated list whose root must differ); distinct = distinct lists";
    let m = Arc::new(Mon::new("C10"));
    m.watchdog(60, RULE);
    let n = m.n(6000, 60_000);
    m.assume("termination is judged by 60 s of CPU time for one list of at most 300 entries, about a million times its normal cost");
    // one thread at a time is in the watched section
    let lists: Vec<Vec<(u64, Id)>> = (0..n)
        .map(|i| {
            let mut r = m.rng(i);
            let mut a = if i == 7 { (0..300).map(|_| r.below(40) << 58).collect() } else { addr_list(&mut r) };
            a.sort_unstable();
            a.into_iter().map(|a| (a, r.arr())).collect()
        })
        .collect();
    let roots: Vec<Option<Id>> = lists
        .iter()
        .map(|l| {
            m.case(|| format!("{l:x?}"));
            let got = guard(|| merkleize(l.iter().map(|x| (x.0, Poseidon2Hash(x.1))).collect()).inner());
            m.case_end();
            match got {
                Ok(g) => Some(g),
                Err(e) => {
                    m.violation("merkleize-panics", format!("{e}\nlist {l:x?}"));
                    None
                }
            }
        })
        .collect();
    parallel(cores(), |w| {
        for (i, l) in lists.iter().enumerate().skip(w as usize).step_by(cores() as usize) {
            let Some(got) = roots[i] else { continue };
            m.eval();
            if l.len() > 1 {
                m.nontrivial(hash_dbg(l));
            }
            let exp = refs::merkle(l);
            if got != exp {
                m.violation("wrong-root", format!("got {} expected {}\nlist {l:x?}", hex(&got), hex(&exp)));
            }
            m.count("entries", l.len() as u64);
            m.count("distinct address top bits seen", u64::from(l.first().map(|x| x.0 >> 63) != l.last().map(|x| x.0 >> 63)));
            if i < 3 {
                m.sample(json!({"addresses": l.iter().map(|x| format!("{:#x}", x.0)).collect::<Vec<_>>(), "root": hex(&got)}));
            }
        }
    });
    // changed lists have other roots
    for (i, l) in lists.iter().enumerate().take(m.n(2500, 20_000) as usize) {
        if l.is_empty() {
            continue;
        }
        let Some(root) = roots[i] else { continue };
        let mut r = m.rng(1 << 40 | i as u64);
        let mut k = l.clone();
        let j = r.idx(k.len());
        let what = match r.below(4) {
            0 => {
                k[j].1[r.idx(32)] ^= 1 << r.below(8);
                "change"
            }
            1 => {
                k.remove(j);
                "drop"
            }
            2 => {
                let x = k[j];
                k.insert(j, x);
                "duplicate"
            }
            _ => {
                let o = r.idx(k.len());
                let t = k[j].1;
                k[j].1 = k[o].1;
                k[o].1 = t;
                "exchange"
            }
        };
        if k == *l {
            continue;
        }
        m.case(|| format!("{k:x?}"));
        let got = guard(|| merkleize(k.iter().map(|x| (x.0, Poseidon2Hash(x.1))).collect()).inner());
        m.case_end();
        m.eval();
        m.count(&format!("mutations: {what}"), 1);
        match got {
            Err(e) => m.violation("merkleize-panics", format!("{e}\nlist {k:x?}")),
            Ok(g) if g == root => m.violation("root-unchanged", format!("{what}: {l:x?} and {k:x?} share the root {}", hex(&g))),
            Ok(_) => {}
        }
    }
    m.finish(RULE);
}

pub fn c14() {
    const RULE: &str = "one evaluation = one emission sequence whose orders, hints and canonical hash were compared with an independent sort and Merkle computation; distinct = distinct sequences";
    let m = Mon::new("C14");
    let n = m.n(12_000, 300_000);
    parallel(cores(), |w| {
        for i in (w..n).step_by(cores() as usize) {
            let mut r = m.rng(i);
            let addrs = raddrs(&mut r);
            let len = match r.below(8) {
                0 => r.idx(2),
                1 => r.idx(70),
                _ => 2 + r.idx(12),
            };
            let mut evs: Vec<Ev> = (0..len).map(|_| Ev::rand(&mut r, &addrs)).collect();
            if r.chance(1, 2) && len > 1 {
                // repeated events, and events that differ only in owner (same canonical form)
                for _ in 0..r.below(4) {
                    let (a, b) = (r.idx(len), r.idx(len));
                    evs[a] = evs[b].clone();
                    if r.chance(1, 2) {
                        evs[a].owner = r.arr();
                    }
                }
            }
            let c: Vec<Canon> = evs.iter().map(Canon::of).collect();
            let order = refs::canonical_order(&c);
            let mut inv = vec![0; len];
            for (k, t) in order.iter().enumerate() {
                inv[*t] = k;
            }
            let res = guard(|| {
                let mut o = if r.chance(1, 2) {
                    OrderedEvents::new(evs.iter().map(Ev::sdk).collect())
                } else {
                    OrderedEvents::default()
                };
                let pushed = format!("{o:?}").contains("temporal_ordering: []");
                if pushed {
                    for e in &evs {
                        o.push_temporal(e.sdk());
                    }
                }
                (o.get_temporal_order_canonical_hints(), o.get_canonical_order_temporal_hints(), o.canonical_hash().inner())
            });
            m.eval();
            if len > 1 {
                m.nontrivial(hash_dbg(&evs));
            }
            m.count("events", len as u64);
            m.count("sequences with repeated canonical events", u64::from((1..len).any(|i| c[..i].contains(&c[i]))));
            let (t, k, h) = match res {
                Ok(x) => x,
                Err(e) => {
                    m.violation("ordering-panics", format!("{e}\n{evs:?}"));
                    continue;
                }
            };
            let got_t: Vec<(Event, u32)> = t;
            if got_t.len() != len || got_t.iter().zip(&evs).any(|(g, e)| g.0 != e.sdk()) {
                m.violation("temporal-order", format!("emission order not preserved: {evs:?}"));
            }
            if got_t.iter().map(|x| x.1 as usize).collect::<Vec<_>>() != order {
                m.violation("canonical-hints", format!("hints {:?} expected {order:?}\n{evs:?}", got_t.iter().map(|x| x.1).collect::<Vec<_>>()));
            }
            let want: Vec<Canon> = order.iter().map(|i| c[*i]).collect();
            let got: Vec<Canon> = k.iter().map(|x| canon(&x.0)).collect();
            if got != want {
                m.violation("canonical-order", format!("got {got:?}\nexpected {want:?}"));
            }
            if k.iter().map(|x| x.1 as usize).collect::<Vec<_>>() != inv {
                m.violation("temporal-hints", format!("hints {:?} expected {inv:?}\n{evs:?}", k.iter().map(|x| x.1).collect::<Vec<_>>()));
            }
            if i % 4 == 0 || m.thorough() {
                let exp = refs::events_root(&c);
                if h != exp {
                    m.violation("canonical-hash", format!("hash {} expected {}\n{evs:?}", hex(&h), hex(&exp)));
                }
                let mut s = evs.clone();
                r.shuffle(&mut s);
                let h2 = OrderedEvents::new(s.iter().map(Ev::sdk).collect()).canonical_hash().inner();
                if h2 != h {
                    m.violation("hash-depends-on-order", format!("{evs:?}"));
                }
                m.count("shuffles", 1);
                if len > 0 {
                    let j = r.idx(len);
                    match r.below(4) {
                        0 => s[j].addr[r.idx(8)] ^= 1 << r.below(8),
                        1 => s[j].ty = (s[j].ty + 1 + r.below(4) as u8) % 5,
                        2 => s[j].data.push(0),
                        _ => {
                            s.remove(j);
                        }
                    }
                    let h3 = OrderedEvents::new(s.iter().map(Ev::sdk).collect()).canonical_hash().inner();
                    // addresses do not enter a root except through the event hash, so any change shows
                    if h3 == h {
                        m.violation("hash-misses-change", format!("{evs:?}\nand {s:?}"));
                    }
                    m.count("changes", 1);
                }
            }
            if i < 3 {
                m.sample(json!({"events": len, "order": order, "hash": hex(&h)}));
            }
        }
    });
    m.finish(RULE);
}

pub fn canon(e: &CanonicalEvent) -> Canon { Canon { addr: e.address.inner(), ty: e.type_ as u8, value: e.value.inner() } }

pub fn c19() {
    const RULE: &str = "one evaluation = one value taken through a text, JSON or rkyv round trip and compared, or a pair of distinct values whose forms must differ; distinct = distinct values";
    let m = Mon::new("C19");
    let n = m.n(150_000, 1_500_000);
    macro_rules! json_trip {
        ($name:expr, $v:expr, $t:ty) => {{
            let v: $t = $v;
            m.eval();
            match guard(|| {
                let s = serde_json::to_string_pretty(&v).unwrap();
                let b: $t = serde_json::from_str(&s).map_err(|e| format!("{e}: {s}"))?;
                if b == v { Ok(s) } else { Err(format!("{s} read back as {}", serde_json::to_string(&b).unwrap())) }
            }) {
                Ok(Ok(s)) => { m.count(concat!("json ", $name), 1); Some(s) }
                Ok(Err(e)) => { m.violation(concat!("json-", $name), e); None }
                Err(e) => { m.violation(concat!("json-", $name), format!("{e}: {v:?}")); None }
            }
        }};
    }
    macro_rules! bin_trip {
        ($name:expr, $v:expr, $t:ty) => {{
            let v: $t = $v;
            m.eval();
            match guard(|| {
                let b = rkyv::to_bytes::<_, 256, rkyv::rancor::Failure>(&v).unwrap();
                let a = unsafe { rkyv::access_unchecked::<$t>(&b) };
                let x: $t = a.deserialize(Strategy::<_, Panic>::wrap(&mut ())).unwrap();
                (x == v, b.to_vec())
            }) {
                Ok((true, b)) => { m.count(concat!("rkyv ", $name), 1); Some(b) }
                Ok((false, _)) => { m.violation(concat!("rkyv-", $name), format!("{v:?}")); None }
                Err(e) => { m.violation(concat!("rkyv-", $name), format!("{e}: {v:?}")); None }
            }
        }};
    }
    parallel(cores(), |w| {
        for i in (w..n).step_by(cores() as usize) {
            let mut r = m.rng(i);
            let mut id: Id = r.arr();
            for _ in 0..r.below(20) {
                id[r.idx(32)] = *r.pick(&[0, 1, 0x0f, 0xf0, 0xff]);
            }
            if i == 0 {
                id = [0; 32];
            }
            m.nontrivial(fnv(&id));
            let p = pid(id);
            // identifiers as text
            let text = format!("{p:?}");
            m.eval();
            match guard(|| ProgramIdentifier::from(text.clone())) {
                Ok(b) if b == p => m.count("text identifiers", 1),
                Ok(b) => m.violation("text-identifier", format!("{text} parsed as {b:?}")),
                Err(e) => m.violation("text-identifier", format!("{text}: {e}")),
            }
            if text != format!("MZK-{}", hex(&id)) {
                m.violation("text-identifier", format!("{} formatted as {text}", hex(&id)));
            }
            let mut id2 = id;
            id2[r.idx(32)] ^= 1 << r.below(8);
            let a8: [u8; 8] = r.arr();
            let mut b8 = a8;
            b8[r.idx(8)] ^= 1 << r.below(8);
            m.eval();
            if format!("{:?}", pid(id2)) == text
                || format!("{:?}", Poseidon2Hash(id)) == format!("{:?}", Poseidon2Hash(id2))
                || format!("{:?}", StateAddress(a8)) == format!("{:?}", StateAddress(b8))
                || serde_json::to_string(&pid(id2)).unwrap() == serde_json::to_string(&p).unwrap()
                || serde_json::to_string(&StateAddress(a8)).unwrap() == serde_json::to_string(&StateAddress(b8)).unwrap()
            {
                m.violation("text-not-injective", format!("{} {} / {} {}", hex(&id), hex(&id2), hex(&a8), hex(&b8)));
            }
            if p.is_null_program() != (id == [0; 32]) || p.inner() != id {
                m.violation("identifier-accessors", hex(&id));
            }
            // words and bytes
            m.eval();
            let h = Poseidon2Hash(id);
            let words: [u64; 4] = core::array::from_fn(|k| u64::from_le_bytes(id[8 * k..8 * k + 8].try_into().unwrap()));
            if h.to_u64s() != words || Poseidon2Hash::from_u64s(words) != h || Poseidon2Hash::from(words) != h || Poseidon2Hash::from(id.to_vec()) != h || Poseidon2Hash::from(id) != h || h.inner() != id {
                m.violation("hash-words", format!("{} <-> {words:x?}: to {:x?} from {} / {}", hex(&id), h.to_u64s(), hex(&Poseidon2Hash::from_u64s(words).inner()), hex(&Poseidon2Hash::from(words).inner())));
            }
            m.count("hash words", 1);
            // binary and JSON forms
            let addrs = [a8];
            let ev = Ev::rand(&mut r, &addrs);
            let nb = match r.below(4) {
                0 => 0,
                1 => r.idx(400),
                _ => r.idx(30),
            };
            let blob = rbytes(&mut r, nb);
            json_trip!("hash", h, Poseidon2Hash);
            json_trip!("identifier", p, ProgramIdentifier);
            json_trip!("address", StateAddress(a8), StateAddress);
            json_trip!("object", ev.sdk().object, StateObject);
            json_trip!("event", ev.sdk(), Event);
            let s1 = json_trip!("message", RawMessage(blob.clone()), RawMessage);
            let mut blob2 = blob.clone();
            blob2.push(0);
            if s1.is_some() && s1 == serde_json::to_string_pretty(&RawMessage(blob2)).ok() {
                m.violation("text-not-injective", format!("message {}", hex(&blob)));
            }
            let call = CrossProgramCall { caller: p, callee: pid(id2), argument: RawMessage(blob.clone()), return_: RawMessage(ev.data.clone()) };
            json_trip!("call", call.clone(), CrossProgramCall);
            let ce = CanonicalEvent { address: StateAddress(a8), type_: ev.sdk().type_, value: h };
            json_trip!("canonical event", ce, CanonicalEvent);
            let hint = CanonicalOrderedTemporalHints(ce, r.edge32());
            json_trip!("hint", hint, CanonicalOrderedTemporalHints);
            bin_trip!("hash", h, Poseidon2Hash);
            bin_trip!("identifier", p, ProgramIdentifier);
            bin_trip!("address", StateAddress(a8), StateAddress);
            bin_trip!("object", ev.sdk().object, StateObject);
            bin_trip!("event", ev.sdk(), Event);
            bin_trip!("message", RawMessage(blob.clone()), RawMessage);
            bin_trip!("calls", vec![call.clone(); r.idx(4)], Vec<CrossProgramCall>);
            bin_trip!("hints", vec![hint; r.idx(4)], Vec<CanonicalOrderedTemporalHints>);
            // whole system tapes
            if i % 8 == 0 {
                tape_trip(&m, &mut r);
            }
            if i < 2 {
                m.sample(json!({"text": text, "event": serde_json::to_value(ev.sdk()).unwrap()}));
            }
        }
    });
    m.finish(RULE);
}

fn tape_trip(m: &Mon, r: &mut Rng) {
    let ids: Vec<Id> = (0..r.range(1, 5)).map(|_| r.arr()).collect();
    let addrs = raddrs(r);
    let mut t = SystemTape::default();
    let mut events: BTreeMap<Id, Vec<Ev>> = BTreeMap::new();
    let mut raw: [BTreeMap<Id, Vec<u8>>; 2] = Default::default();
    let mut calls = vec![];
    for id in &ids {
        let n = r.idx(5);
        let e: Vec<Ev> = (0..n).map(|_| Ev::rand(r, &addrs)).collect();
        t.event_tape.writer.insert(pid(*id), OrderedEvents::new(e.iter().map(Ev::sdk).collect()));
        events.insert(*id, e);
        for k in 0..2 {
            let n = r.idx(50);
            let b = rbytes(r, n);
            raw[k].insert(*id, b.clone());
            if k == 0 { &mut t.public_input_tape } else { &mut t.private_input_tape }.writer.insert(pid(*id), RawMessage(b));
        }
        let (a, b) = (*r.pick(&ids), r.idx(60));
        let c = CrossProgramCall { caller: pid(a), callee: pid(*id), argument: RawMessage(rbytes(r, b)), return_: RawMessage(rbytes(r, b / 2)) };
        t.call_tape.writer.push(c.clone());
        calls.push(c);
    }
    m.eval();
    let res = guard(|| {
        let s = serde_json::to_string_pretty(&t).unwrap();
        clirun::runner::deserialize_system_tape(s.as_bytes()).map_err(|e| e.to_string())
    });
    let b = match res {
        Ok(Ok(b)) => b,
        Ok(Err(e)) | Err(e) => return m.violation("json-system-tape", e),
    };
    let mut bad = vec![];
    if b.call_tape.writer != calls {
        bad.push("calls");
    }
    if b.event_tape.writer.len() != events.len() || events.iter().any(|(i, e)| b.event_tape.writer.get(&pid(*i)).map(|o| o.get_temporal_order_canonical_hints().into_iter().map(|x| x.0).collect::<Vec<_>>()) != Some(e.iter().map(Ev::sdk).collect())) {
        bad.push("events");
    }
    for (k, w) in [&b.public_input_tape.writer, &b.private_input_tape.writer].iter().enumerate() {
        if w.len() != raw[k].len() || raw[k].iter().any(|(i, v)| w.get(&pid(*i)).map(|x| &x.0) != Some(v)) {
            bad.push(["public tapes", "private tapes"][k]);
        }
    }
    if !bad.is_empty() {
        m.violation("json-system-tape", format!("{bad:?} changed: {}", serde_json::to_string(&t).unwrap()));
    }
    m.count("json system tapes", 1);
}
