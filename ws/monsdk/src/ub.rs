//! C18: collects what the sanitizers and the interpreter report while the other workloads run.
//! Only their reports count here; functional verdicts of the workloads belong to other checks.
use monlib::{cores, fnv, json, Mon};
use std::collections::BTreeSet;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

struct Job {
    name: String,
    kind: Kind,
    cmd: Vec<String>,
    env: Vec<(String, String)>,
    limit: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Miri,
    Asan,
    /// Guests built with arithmetic and pointer assertions.
    Checked,
}

struct Out {
    text: String,
    status: Option<std::process::ExitStatus>,
    timed_out: bool,
}

/// Runs in its own process group, so that a time-out ends its children too.
fn run(j: &Job, dir: &str) -> Out {
    use std::os::unix::process::CommandExt;
    let path = format!("{dir}/{}.log", j.name);
    let f = std::fs::File::create(&path).unwrap();
    let mut c = Command::new(&j.cmd[0]);
    c.args(&j.cmd[1..]).stdin(Stdio::null()).stdout(f.try_clone().unwrap()).stderr(f).process_group(0);
    for (k, v) in &j.env {
        c.env(k, v);
    }
    let mut p = c.spawn().unwrap();
    let t = Instant::now();
    let (status, timed_out) = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break (Some(s), false);
        }
        if t.elapsed().as_secs() > j.limit {
            unsafe { libc::kill(-(p.id() as i32), libc::SIGKILL) };
            let _ = p.wait();
            break (None, true);
        }
        std::thread::sleep(Duration::from_millis(100));
    };
    let text = String::from_utf8_lossy(&std::fs::read(&path).unwrap_or_default()).into_owned();
    Out { text, status, timed_out }
}

/// Run-time assertions of the compiler about arithmetic and pointers.
fn assertion(l: &str) -> bool {
    (l.contains("attempt to ") && l.contains("overflow")) || l.contains("misaligned pointer dereference") || l.contains("unsafe precondition") || l.contains("null pointer dereference")
}

fn ours(l: &str) -> bool { ["/repo/sdk/", "/repo/runner/", "/repo/cli/", "/miri-src/sdk/", "/miri-src/runner/"].iter().any(|p| l.contains(p)) }

/// (signature, excerpt) of everything the instrumentation reported.
fn reports(kind: Kind, o: &Out) -> Vec<(String, String)> {
    let lines: Vec<&str> = o.text.lines().collect();
    let mut v = vec![];
    let around = |i: usize| lines[i.saturating_sub(1)..(i + 12).min(lines.len())].join("\n");
    for (i, l) in lines.iter().enumerate() {
        let sig = match kind {
            Kind::Miri if l.contains("Undefined Behavior") => "undefined behaviour",
            Kind::Miri if l.contains("Data race detected") => "data race",
            Kind::Miri if l.starts_with("error: memory leaked") => "leak",
            Kind::Asan if l.contains("ERROR: AddressSanitizer") => "sanitizer report",
            // inside a guest: the workload quotes the abort message of the guest
            // (assertions about pointers end in the trap for aborts, without a message)
            Kind::Checked if assertion(l) || l.contains("Unknown instruction c0001073") => "assertion in a guest",
            _ => "",
        };
        if !sig.is_empty() {
            v.push((sig.into(), around(i)));
        }
        // natively: `thread .. panicked at <where>:` and the message in the next line
        if kind != Kind::Checked && l.contains("panicked at ") && ours(l) && lines.get(i + 1).is_some_and(|m| assertion(m)) {
            v.push(("arithmetic or pointer assertion".into(), around(i)));
        }
    }
    if kind == Kind::Asan && v.is_empty() {
        use std::os::unix::process::ExitStatusExt;
        if let Some(s) = o.status.and_then(|s| s.signal()) {
            if [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT].contains(&s) {
                v.push(("fatal signal".into(), format!("signal {s}\n{}", lines[lines.len().saturating_sub(12)..].join("\n"))));
            }
        }
    }
    v
}

pub fn c18() -> ! {
    let m = Mon::new("C18");
    let dir = format!("{}/out/C18", m.root);
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    let tools = format!("{}/tools", m.root);
    let mut jobs = vec![];
    let env = |extra: &[(&str, String)]| extra.iter().map(|(k, v)| ((*k).to_string(), v.clone())).collect::<Vec<_>>();

    for k in 0..m.n(6, 96) {
        let scratch = format!("{dir}/miri-{k}");
        let _ = std::fs::remove_dir_all(&scratch);
        std::fs::create_dir_all(&scratch).unwrap();
        let seed = (m.seed * 1000 + k).to_string();
        let (tx, pr) = if k % 3 == 2 { ("0", "12") } else { ("2", "0") };
        jobs.push(Job {
            name: format!("miri-{k}"),
            kind: Kind::Miri,
            cmd: ["bash", &format!("{tools}/miri.sh"), &scratch, &seed, tx, pr].map(String::from).to_vec(),
            env: env(&[("MIRI_BUILT", "1".into())]),
            limit: if m.thorough() { 600 } else { 240 },
        });
    }
    let scale = |q: &str, t: &str| if m.thorough() { t.to_string() } else { q.to_string() };
    let works = [
        ("monvm", "C01", "0.05", "0.5"),
        ("monvm", "C03", "0.1", "0.5"),
        ("monvm", "C05", "0.15", "1"),
        ("monvm", "C06", "0.1", "1"),
        ("monvm", "C07", "0.1", "1"),
        ("monsdk", "C10", "0.1", "0.5"),
        ("monsdk", "C14", "0.1", "0.5"),
        ("monsdk", "C15", "0.2", "1"),
        ("monsdk", "C19", "0.2", "1"),
        ("monsdk", "C12", "0.05", "0.3"),
    ];
    for (bin, id, q, t) in works {
        let root = format!("{dir}/asan-{id}");
        let _ = std::fs::create_dir_all(&root);
        jobs.push(Job {
            name: format!("asan-{id}"),
            kind: Kind::Asan,
            cmd: vec![format!("{target}/asan/x86_64-unknown-linux-gnu/debug/{bin}"), id.into()],
            env: env(&[("VERIF", root), ("VERIF_TIER", "quick".into()), ("MON_SCALE", scale(q, t)), ("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0".into())]),
            limit: if m.thorough() { 2000 } else { 200 },
        });
    }
    for (id, q, t) in [("C11", "0.2", "1"), ("C12", "0.15", "1"), ("C16", "0.2", "1"), ("C17", "0.2", "1")] {
        let root = format!("{dir}/checked-{id}");
        let _ = std::fs::create_dir_all(&root);
        jobs.push(Job {
            name: format!("checked-{id}"),
            kind: Kind::Checked,
            cmd: vec![std::env::current_exe().unwrap().to_string_lossy().into_owned(), id.into()],
            env: env(&[("VERIF", root), ("VERIF_TIER", "quick".into()), ("MON_SCALE", scale(q, t)), ("GUESTS", "/dbg".into())]),
            limit: if m.thorough() { 2000 } else { 200 },
        });
    }

    // The interpreter runs are single-threaded and long, the others use every core.
    let (single, wide): (Vec<Job>, Vec<Job>) = jobs.into_iter().partition(|j| j.kind == Kind::Miri);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..cores().saturating_sub(2).max(1) {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                let Some(j) = single.get(k) else { break };
                judge(&m, j, &run(j, &dir));
                let _ = std::fs::remove_dir_all(format!("{dir}/{}", j.name));
            });
        }
        s.spawn(|| {
            for j in &wide {
                judge(&m, j, &run(j, &dir));
            }
        });
    });
    m.assume("Miri interprets copies of the sources with the syntactic changes made by tools/miri.sh; it does not see rkyv's archived reads, whose relative pointers step outside the reference they start from by design of that library");
    m.finish("evaluations: workload items the instrumented processes reported having completed; distinct_nontrivial: distinct instrumented workloads with a complete observation plus the distinct cases they reported");
}

fn judge(m: &Mon, j: &Job, o: &Out) {
    let mut seen = BTreeSet::new();
    for (sig, text) in reports(j.kind, o) {
        if seen.insert(sig.clone()) {
            m.violation(&format!("{sig}: {}", j.name.split('-').next().unwrap()), format!("{} (log out/C18/{}.log)\n{text}", j.cmd.join(" "), j.name));
        }
    }
    if o.timed_out {
        m.count(&format!("cut short: {:.4}", j.name), 1);
    }
    for l in o.text.lines() {
        if let Some(r) = l.strip_prefix("OBSERVED ") {
            let mut n = 0;
            for kv in r.split(' ') {
                if let Some((k, v)) = kv.split_once('=') {
                    let v: u64 = v.parse().unwrap_or(0);
                    m.count(&format!("miri {k}"), v);
                    n += v;
                }
            }
            m.evals(n);
            m.nontrivial(fnv(format!("{} {r}", j.name).as_bytes()));
            m.sample(json!({"interpreter run": j.name, "observed": r}));
        } else if l.starts_with("[C") && l.contains("] evaluations=") {
            let num = |k: &str| l.split(k).nth(1).and_then(|s| s.split(' ').next()).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            let (e, d) = (num("evaluations="), num("distinct="));
            m.evals(e);
            m.count(&format!("{} evaluations", j.name), e);
            m.nontrivials((0..d).map(|i| fnv(format!("{} {i}", j.name).as_bytes())));
            m.sample(json!({"instrumented workload": j.name, "evaluations": e, "distinct": d}));
        }
    }
}
