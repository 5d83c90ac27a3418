//! wsim: deterministic simulation of wadec under injected faults.
mod alloc;
mod canon;
mod case;
mod cli;
mod dict;
mod driver;
mod eval;
mod faults;
mod fresh;
mod gencase;
mod image;
mod json;
mod model;
mod ops;
mod reader;
mod rng;
mod sched;
mod shrink;
mod world;

#[global_allocator]
static A: alloc::Tracking = alloc::Tracking;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| matches!(a.as_str(), "worker" | "eval" | "shrink" | "cases")) {
        fresh::start();
    }
    // deep nesting is judged against the 8 MiB stack of a main thread
    let code = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || driver::main(&args))
        .expect("spawn")
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}
