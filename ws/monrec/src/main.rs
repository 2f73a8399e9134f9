//! Monitors over the recursive proofs and the node that composes them into blocks.
mod adv;
mod c30;
mod c31;
mod c32;
mod c34;
mod c40;
mod c41;
mod native;
mod prog;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C30" => c30::run(),
        "C31" => c31::run(),
        "C32" => c32::run(),
        "C34" => c34::run(),
        "C40" => c40::run(),
        "C41" => c41::run(),
        _ => {
            eprintln!("usage: monrec <property>");
            std::process::exit(2);
        }
    }
}
