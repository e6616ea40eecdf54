//! Monitors of the spec generator: the real program runs on source trees in a scratch directory and
//! what it writes is compared with an independent model of fork inheritance.
mod forks;
mod tree;
mod types;

fn main() {
    vcommon::whole(run)
}
fn run() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C08" => forks::c08(),
        "C09" => types::c09(),
        id => {
            println!("unknown property {id}");
            std::process::exit(9)
        }
    }
}
