//! Mechanical extraction of functions of /repo into Verus files.
//!
//! `extract REPO_SRC UNIT.vrs OUT.rs OUT.json` copies UNIT.vrs to OUT.rs,
//! replacing each `//@fn`, `//@type`, `//@const` and `//@assume` block by the
//! named item as it stands in the repository *now*, with the block's contract
//! text inserted. OUT.json records which lines of OUT.rs came from which
//! function, every rewrite that was applied and every trusted contract.
//! With `--smoke`, `assert(false)` is put at the start of every extracted
//! function: each must fail, or its precondition can't be met.
//! Exit code 3 and a JSON `{"lost": ..}` when an anchor can't be found.
mod emit;
mod rewrite;
mod source;
mod unit;

use serde_json::json;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let smoke = a.get(5).map(|s| s == "--smoke") == Some(true);
    if a.len() != 5 && !smoke {
        eprintln!("usage: extract REPO_SRC UNIT.vrs OUT.rs OUT.json [--smoke]");
        std::process::exit(2);
    }
    match unit::process(&a[1], &a[2], smoke) {
        Ok(o) => {
            std::fs::write(&a[3], &o.text).unwrap();
            std::fs::write(&a[4], serde_json::to_string_pretty(&o.meta).unwrap()).unwrap();
        }
        Err(e) => {
            std::fs::write(&a[4], json!({ "lost": e }).to_string()).unwrap();
            eprintln!("lost anchor: {e}");
            std::process::exit(3);
        }
    }
}
