#![allow(clippy::all, dead_code, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod alloc;
mod engine;
mod sys;
mod sched;
mod util;
mod aio;
mod fault;
mod arc;
mod format;
mod checks;
mod main_fn;

#[global_allocator]
static COUNTING: alloc::Counting = alloc::Counting;

fn main() { main_fn::main_fn(checks::all()) }
