//! Deterministic simulation of protox. See ../DESIGN.md.
// `open` is variadic in C; on x86-64 Linux the fixed-arity definition in sys.rs has the same ABI.
#![allow(invalid_runtime_symbol_definitions)]

mod cli;
mod clidisk;
mod driver;
mod gen;
mod huge;
mod model;
mod profiles;
mod props;
mod report;
mod rng;
mod scenario;
mod stream;
mod sys;
mod threads;
mod wild;
mod wire;
mod world;

#[global_allocator]
static ALLOC: sys::SimAlloc = sys::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&args));
}
