//! Monitors over the arithmetisation: expressions, trace generation, constraints, lookups, proofs.
#[allow(dead_code)]
#[path = "../../monvm/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../monvm/src/lockstep.rs"]
mod lockstep;

mod c20;
mod c22;
mod c24;
mod c27;
mod c28;
mod pack;
mod progs;
mod spec;
mod sys;
mod world;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C20" => c20::run("C20"),
        "C21" => c20::run("C21"),
        "C22" => c22::run(),
        "C24" => c24::run(),
        "C27" => c27::run(),
        "C28" => c28::run(),
        _ => {
            eprintln!("usage: moncirc <property>");
            std::process::exit(2);
        }
    }
}
