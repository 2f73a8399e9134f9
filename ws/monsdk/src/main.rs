//! Monitors over the SDK: natively, and inside guest programs running in the VM.
#[macro_use]
#[path = "../../../guest/actor/src/msgs.rs"]
mod msgs;
mod guest;
mod inguest;
mod native;
mod refs;
mod scenario;
mod transact;
mod ub;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map_or("", |s| s) {
        "C10" => native::c10(),
        "C11" => inguest::c11(),
        "C12" => transact::c12(),
        "C13" => transact::c13(),
        "C14" => native::c14(),
        "C15" => transact::c15(),
        "C16" => inguest::c16(),
        "C17" => inguest::c17(),
        "C18" => ub::c18(),
        "C19" => native::c19(),
        "child" => transact::child(&a[2], &a[3], a[4].parse().unwrap()),
        _ => {
            eprintln!("usage: monsdk <property>");
            std::process::exit(2);
        }
    }
}
