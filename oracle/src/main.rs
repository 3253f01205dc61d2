//! Executable contracts for asciidoc-parser: bounded stand-ins and the
//! counterexample finder / replayer of the deductive checks.
//!
//!   oracle run    --prop P --seed S --tier T --secs N --out FILE
//!   oracle worker ...            (internal)
//!   oracle one    --prop P --case FILE     exit 0 pass, 1 fail, 3 skipped
//!   oracle list

mod common;
mod genr;
mod harness;
mod props;
mod rng;
mod walk;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(harness::main(&args));
}
