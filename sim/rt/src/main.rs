//! Simulator of the planus runtime: `rt PROPERTY check|replay FILE|dump N|one N`.
use simrt::{alloc, build, cluster, fail, hist, read};

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    hist::silent_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    use build::{Build, Which};
    let r = match a[0].as_str() {
        "C01" => simdrv::main_for(&Build(Which::C01), &a[1..]),
        "C02" => simdrv::main_for(&Build(Which::C02), &a[1..]),
        "C03" => simdrv::main_for(&Build(Which::C03), &a[1..]),
        "C04" => simdrv::main_for(&Build(Which::C04), &a[1..]),
        "C09" => simdrv::main_for(&cluster::Cluster, &a[1..]),
        "C07" => simdrv::main_for(&fail::Failing, &a[1..]),
        "C05" => simdrv::main_for(&read::Reading(false), &a[1..]),
        "C06" => simdrv::main_for(&read::Reading(true), &a[1..]),
        x => {
            eprintln!("unknown property {x}");
            2
        }
    };
    std::process::exit(r);
}
