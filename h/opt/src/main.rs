//! The selection and transition monitors of h/core in the build with the `shuffling` feature.
#![allow(dead_code)]
#[path = "../../core/src/cfg.rs"]
mod cfg;
#[path = "../../core/src/chain.rs"]
mod chain;
#[path = "../../core/src/gen.rs"]
mod gen;
#[path = "../../core/src/ops.rs"]
mod ops;
#[path = "../../core/src/query.rs"]
mod query;
#[path = "../../core/src/repo.rs"]
mod repo;
#[path = "../../core/src/rstate.rs"]
mod rstate;
#[path = "../../core/src/run.rs"]
mod run;
#[path = "../../core/src/schema.rs"]
mod schema;
#[path = "../../core/src/stf.rs"]
mod stf;
#[path = "../../core/src/ty.rs"]
mod ty;
use vcommon::Run;

fn main() {
    vcommon::whole(run)
}
fn run() {
    let id = std::env::args().nth(1).expect("usage: opt <property id>");
    match id.as_str() {
        "C16" => query::optimized(Run::new("C16", 60, 600)),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2)
        }
    }
}
