mod cfg;
mod chain;
mod codec;
mod exec;
mod gen;
mod hostile;
mod misc;
mod ops;
mod poly;
mod poly_gen;
mod query;
mod repo;
mod rstate;
mod run;
mod schema;
mod stf;
mod ty;
use vcommon::Run;

fn main() {
    vcommon::whole(run)
}
fn run() {
    let id = std::env::args().nth(1).expect("usage: core <property id>");
    if let Some(sp) = ops::SPECS.iter().find(|s| s.id == id) {
        ops::block_ops(sp, Run::new(sp.id, 60, 600));
    }
    match id.as_str() {
        "C10" => codec::ssz(Run::new("C10", 60, 600)),
        "C11" => codec::roots(Run::new("C11", 60, 600)),
        "C12" => codec::json_mapping(Run::new("C12", 60, 600)),
        "C13" => poly::poly(Run::new("C13", 60, 600)),
        "C15" => query::selections(Run::new("C15", 60, 600)),
        "C40" => query::queries(Run::new("C40", 60, 600)),
        "C14" => misc::inclusion(Run::new("C14", 60, 600)),
        "C41" => misc::summaries(Run::new("C41", 60, 600)),
        "C43" => misc::registrations(Run::new("C43", 60, 600)),
        "C17" => chain::slots(Run::new("C17", 60, 600)),
        "C26" => chain::epochs("C26", "finality", Run::new("C26", 60, 600)),
        "C27" => chain::epochs("C27", "rewards", Run::new("C27", 60, 600)),
        "C28" => chain::epochs("C28", "registry", Run::new("C28", 60, 600)),
        "C29" => chain::upgrades(Run::new("C29", 60, 600)),
        "C30" => chain::genesis(Run::new("C30", 60, 600)),
        "C31" => exec::executor(Run::new("C31", 60, 600)),
        "C32" => hostile::hostile(Run::new("C32", 60, 600)),
        "C33" => chain::transitions(Run::new("C33", 60, 600)),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2)
        }
    }
}
