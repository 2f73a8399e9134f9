//! Monitors over the virtual machine (decoder, executor, memory, system calls, loader, record).
mod c02;
mod c07;
mod gen;
mod lockstep;
mod vmprops;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => vmprops::c01(),
        "C02" => c02::run(),
        "C03" => vmprops::c03(),
        "C04" => vmprops::c04(),
        "C05" => vmprops::c05(),
        "C06" => vmprops::c06(),
        "C07" => c07::run(),
        "C08" => vmprops::c08(),
        _ => {
            eprintln!("usage: monvm <property>");
            std::process::exit(2);
        }
    }
}
