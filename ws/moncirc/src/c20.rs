use monlib::{guard, Mon, Rng};

use crate::gen;
use crate::lockstep::Case;
use crate::progs::{self, Run};
use crate::spec;
use crate::sys::{self, Traces};

fn judge(m: &Mon, which: &str, c: &Case, prefix: &str) -> bool {
    m.eval();
    let run = match progs::run(c) {
        Ok(r) => r,
        Err(e) => {
            m.count(&format!("not-run:{}", e.chars().take(110).collect::<String>()), 1);
            return false;
        }
    };
    if prefix.is_empty() {
        if let Some(x) = progs::excluded(&run) {
            m.count(&format!("left-to-directed:{x}"), 1);
            return false;
        }
    }
    let fails = match guard(|| sys::traces(&run.program, &run.record)) {
        Err(p) => vec![("generation-panics".to_string(), p)],
        Ok(tr) => check(m, which, &run, &tr),
    };
    for (s, d) in &fails {
        m.violation(&format!("{prefix}{s}"), format!("{d}\n{}", progs::show(c)));
    }
    fails.is_empty()
}

fn check(m: &Mon, which: &str, run: &Run, tr: &Traces) -> Vec<(String, String)> {
    m.count("steps", run.record.executed.len() as u64);
    if run.record.executed.len() % 7 == 3 {
        m.sample(monlib::json!({"program": progs::show(&run.case), "steps": run.record.executed.len()}));
    }
    m.nontrivial(monlib::fnv(format!("{:?}", run.record.executed.iter().map(|r| (r.instruction, r.aux.dst_val)).collect::<Vec<_>>()).as_bytes()));
    if which == "C20" {
        let mut v = sys::constraints(tr, run.case.entry);
        for t in sys::tabs() {
            m.count(&format!("rows:{:?}", t.kind()), sys::height(&tr[t.kind()]) as u64);
        }
        v.truncate(8);
        match spec::spec(run) {
            Ok(x) => v.extend(spec::correspondence(&x, tr)),
            Err(e) => v.push(("record-not-of-the-program".into(), e)),
        }
        v
    } else {
        let mut v = sys::relations(tr);
        if let Ok(x) = spec::spec(run) {
            v.extend(spec::public(&x, run, tr));
            v.extend(spec::ranges(&x, tr));
        }
        v
    }
}

pub fn run(which: &str) -> ! {
    let m = Mon::new(which);
    let n = if which == "C20" { m.n(4000, 100_000) } else { m.n(20_000, 500_000) };
    let d = progs::directed();
    let di = std::sync::atomic::AtomicUsize::new(0);
    monlib::parallel(monlib::cores(), |_| loop {
        let i = di.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let Some((name, c)) = d.get(i) else { break };
        judge(&m, which, c, &format!("{}/", name.split('/').next().unwrap()));
    });
    let t = std::sync::atomic::AtomicU64::new(0);
    monlib::parallel(monlib::cores(), |w| {
        let mut r: Rng = m.rng(w + 1);
        while t.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < n && m.within(45, 600) {
            let c = match r.below(4) {
                0 => gen::halting(&mut r),
                1 => progs::ecall_program(&mut r),
                _ => progs::edge_program(&mut r),
            };
            judge(&m, which, &c, "");
        }
    });
    m.assume("the trace generation and constraints are the repository's; plonky2, starky and the other unavailable crates are stand-ins (shims/), which supply the field and Poseidon2 arithmetic, and the evaluation of constraints");
    m.finish(if which == "C20" {
        "one evaluation is one program run to its end: every constraint of every table is evaluated on every row of its traces, and the rows of CPU, memory, register, tape and hash tables are compared with what the reference machine executed; distinct: hash of the executed instructions and results"
    } else {
        "one evaluation is one program run to its end: every cross-table relation is summed as a multiset, public tables and sub-tables are compared with the program, and independently derived range checks must be present; distinct: hash of the executed instructions and results"
    })
}
