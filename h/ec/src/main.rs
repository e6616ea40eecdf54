mod keys_prop;
mod oracle;
mod tool;

// the repository's own modules, compiled in place
#[path = "/repo/ethereum-consensus/src/bin/ec/bls.rs"]
#[allow(dead_code)]
mod bls;
#[allow(dead_code)]
mod validator {
    #[path = "/repo/ethereum-consensus/src/bin/ec/validator/keys.rs"]
    pub mod keys;
    #[path = "/repo/ethereum-consensus/src/bin/ec/validator/keystores.rs"]
    pub mod keystores;
    #[path = "/repo/ethereum-consensus/src/bin/ec/validator/mnemonic.rs"]
    pub mod mnemonic;
}
use vcommon::Run;

fn main() {
    vcommon::whole(run)
}
fn run() {
    let id = std::env::args().nth(1).expect("usage: ec <property id>");
    oracle::self_check();
    match id.as_str() {
        "C06" => keys_prop::mnemonics(Run::new("C06", 20, 200)),
        "C50" => keys_prop::derivation(Run::new("C50", 25, 300)),
        "C51" => keys_prop::keystores(Run::new("C51", 40, 400)),
        "C52" => tool::blobs(Run::new("C52", 60, 500)),
        "C54" => tool::commands(Run::new("C54", 40, 200)),
        "C53" => tool::bundles(Run::new("C53", 40, 300)),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2)
        }
    }
}
