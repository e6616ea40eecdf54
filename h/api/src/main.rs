//! Monitors of the beacon API client: every request it issues and every reply it interprets is observed.
#[allow(dead_code)]
#[path = "../../core/src/schema.rs"]
mod schema;
#[allow(dead_code)]
#[path = "../../core/src/ty.rs"]
mod ty;

mod cases;
mod ids;
mod wire;

fn main() {
    vcommon::whole(run)
}
fn run() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C60" => wire::c60(),
        "C61" => wire::c61(),
        "C62" => ids::c62(),
        _ => {
            println!("unknown property {id}");
            std::process::exit(9)
        }
    }
}
