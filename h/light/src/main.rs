mod bls;
mod clock;
mod codec;
mod consts;
mod names;
mod peer;
use vcommon::Run;

fn main() {
    vcommon::whole(run)
}
fn run() {
    let id = std::env::args().nth(1).expect("usage: light <property id>");
    match id.as_str() {
        "C01" => clock::arithmetic(Run::new("C01", 15, 240)),
        "C02" => clock::stream(Run::new("C02", 20, 300)),
        "C03" => codec::run(Run::new("C03", 20, 240)),
        "C04" => names::domains(Run::new("C04", 10, 120)),
        "C05" => consts::parameters(Run::new("C05", 10, 30)),
        "C37" => consts::configuration(Run::new("C37", 15, 120)),
        "C38" => names::networks(Run::new("C38", 10, 60)),
        "C35" => bls::bls(Run::new("C35", 15, 180)),
        "C36" => bls::kzg(Run::new("C36", 30, 180)),
        "C39" => peer::run(Run::new("C39", 10, 60)),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2)
        }
    }
}
