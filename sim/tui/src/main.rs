//! Simulator of `planus view`: the real viewer on a simulated terminal.
//! `tui C13|C14 check|replay FILE|dump N|one N`.
mod content;
mod session;
mod term;
mod world;

fn main() {
    simrt::hist::silent_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let r = match a[0].as_str() {
        "C13" => simdrv::main_for(&session::Sessions, &a[1..]),
        "C14" => simdrv::main_for(&content::Content, &a[1..]),
        x => {
            eprintln!("unknown property {x}");
            2
        }
    };
    std::process::exit(r);
}
