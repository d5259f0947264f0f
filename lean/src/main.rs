#![allow(clippy::all, dead_code, unused_imports, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/sys.rs"]
mod sys;
#[path = "../../harness/src/sched.rs"]
mod sched;
#[path = "../../harness/src/util.rs"]
mod util;
#[path = "../../harness/src/fault.rs"]
mod fault;
#[path = "../../harness/src/arc.rs"]
mod arc;
#[path = "../../harness/src/format.rs"]
mod format;
#[path = "../../harness/src/aio.rs"]
mod aio;
mod checks;
#[path = "../../harness/src/main_fn.rs"]
mod main_fn;

fn main() { main_fn::main_fn(checks::all()) }
