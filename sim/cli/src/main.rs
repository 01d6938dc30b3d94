//! Simulator of the planus command line: the real program on a simulated operating system
//! (shim.c). `cli C10|C11|C12|C15|C16 check|replay FILE|dump N|one N`.
mod faults;
mod input;
mod os;
mod repro;
mod rustfmt;
mod torn;
mod view;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let r = match a[0].as_str() {
        "C10" => simdrv::main_for(&faults::Faults, &a[1..]),
        "C11" => simdrv::main_for(&repro::Repro, &a[1..]),
        "C12" => simdrv::main_for(&rustfmt::Children, &a[1..]),
        "C15" => simdrv::main_for(&torn::Torn, &a[1..]),
        "C16" => simdrv::main_for(&view::View, &a[1..]),
        x => {
            eprintln!("unknown property {x}");
            2
        }
    };
    os::clean_up();
    std::process::exit(r);
}
