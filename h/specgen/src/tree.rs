//! Source trees of fork diffs, running the generator on them, and token utilities.
use proc_macro2::{TokenStream, TokenTree};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    process::Command,
    sync::OnceLock,
};

pub const FORKS: [&str; 6] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
/// the modules that make up each fork's diff
pub const MODULES: [&[&str]; 6] = [
    &["beacon_block", "beacon_state", "block_processing", "constants", "epoch_processing", "genesis", "helpers", "operations", "slot_processing", "state_transition", "validator"],
    &["beacon_block", "beacon_state", "block_processing", "constants", "epoch_processing", "genesis", "helpers", "light_client", "sync", "validator"],
    &["beacon_block", "beacon_state", "blinded_beacon_block", "block_processing", "epoch_processing", "execution_payload", "fork_choice", "genesis", "helpers", "state_transition"],
    &["beacon_block", "beacon_state", "blinded_beacon_block", "block_processing", "bls_to_execution_change", "epoch_processing", "execution_payload", "genesis", "helpers", "light_client", "withdrawal"],
    &["beacon_block", "beacon_state", "blinded_beacon_block", "blob_sidecar", "block_processing", "epoch_processing", "execution_engine", "execution_payload", "genesis", "helpers", "light_client"],
    &["beacon_block", "beacon_state", "block_processing", "constants", "epoch_processing", "execution_engine", "execution_payload", "genesis", "helpers", "operations"],
];
pub fn pascal(f: usize) -> String {
    let n = FORKS[f];
    n[..1].to_uppercase() + &n[1..]
}

/// (fork, module) -> source text
pub type Tree = BTreeMap<(usize, String), String>;

pub fn real() -> &'static Tree {
    static T: OnceLock<Tree> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tree::new();
        for f in 0..6 {
            for m in MODULES[f] {
                let p = format!("/repo/ethereum-consensus/src/{}/{m}.rs", FORKS[f]);
                t.insert((f, m.to_string()), std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p}: {e}")));
            }
        }
        t
    })
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(t: &Tree, tag: &str) -> Self {
        let d = std::env::temp_dir().join(format!("verif-specgen-{}-{tag}", std::process::id()));
        for ((f, m), text) in t {
            let p = d.join("ethereum-consensus/src").join(FORKS[*f]);
            std::fs::create_dir_all(&p).unwrap();
            std::fs::write(p.join(format!("{m}.rs")), text).unwrap();
        }
        std::fs::create_dir_all(d.join("ethereum-consensus/src/types")).unwrap();
        Self(d)
    }
    /// exit status and what it printed to stderr
    pub fn run(&self, command: &str) -> (bool, String) {
        let exe = std::env::current_exe().unwrap().with_file_name("spec-gen-under-test");
        let o = Command::new(exe).arg(command).current_dir(&self.0).output().expect("generator starts");
        (o.status.success(), String::from_utf8_lossy(&o.stderr).chars().take(600).collect())
    }
    pub fn read(&self, rel: &str) -> Option<String> {
        std::fs::read_to_string(self.0.join("ethereum-consensus/src").join(rel)).ok()
    }
    /// every file below the scratch directory
    pub fn files(&self) -> Vec<String> {
        fn walk(d: &Path, out: &mut Vec<PathBuf>) {
            for e in std::fs::read_dir(d).unwrap() {
                let p = e.unwrap().path();
                if p.is_dir() {
                    walk(&p, out)
                } else {
                    out.push(p)
                }
            }
        }
        let mut v = vec![];
        walk(&self.0, &mut v);
        let base = self.0.join("ethereum-consensus/src");
        v.iter().map(|p| p.strip_prefix(&base).unwrap_or(p).display().to_string()).collect()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------ tokens
/// tokens in one flat list, delimiters included
pub fn raw(ts: TokenStream) -> Vec<String> {
    fn go(ts: TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    if !a.is_empty() {
                        out.push(a.into());
                    }
                    go(g.stream(), out);
                    if !b.is_empty() {
                        out.push(b.into());
                    }
                }
                t => out.push(t.to_string()),
            }
        }
    }
    let mut v = vec![];
    go(ts, &mut v);
    v
}
/// the same with `::` before `<` and trailing commas left out
pub fn flat(ts: TokenStream) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for t in raw(ts) {
        if t == "<" && o.len() >= 2 && o[o.len() - 1] == ":" && o[o.len() - 2] == ":" {
            o.truncate(o.len() - 2);
        }
        if [")", "]", "}", ">"].contains(&t.as_str()) && o.last().is_some_and(|l| l == ",") {
            o.pop();
        }
        o.push(t);
    }
    o
}
pub fn text(ts: TokenStream) -> String {
    flat(ts).join(" ")
}
/// `name<…>` gets the arguments `args`, everywhere in a flat token list
pub fn reargue(v: &[String], name: &str, args: &[String]) -> Vec<String> {
    let mut o = vec![];
    let mut i = 0;
    while i < v.len() {
        o.push(v[i].clone());
        let turbofish = v.len() > i + 2 && v[i + 1] == ":" && v[i + 2] == ":";
        let start = if turbofish { i + 3 } else { i + 1 };
        if v[i] == name && v.get(start).is_some_and(|t| t == "<") {
            if turbofish {
                o.push(":".into());
                o.push(":".into());
            }
            let mut d = 0;
            let mut j = start;
            loop {
                match v[j].as_str() {
                    "<" => d += 1,
                    ">" => d -= 1,
                    _ => {}
                }
                j += 1;
                if d == 0 {
                    break;
                }
            }
            o.push("<".into());
            o.push(args.join(" , "));
            o.push(">".into());
            i = j;
            continue;
        }
        i += 1;
    }
    o
}
pub fn consts(g: &syn::Generics) -> Vec<String> {
    g.params
        .iter()
        .filter_map(|p| match p {
            syn::GenericParam::Const(c) => Some(c.ident.to_string()),
            _ => None,
        })
        .collect()
}
/// as the printer of the generated files would print it
pub fn printable(file: &syn::File) -> Option<String> {
    // the printer knows no let-else
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prettyplease::unparse(file))).ok()
}
pub fn canonical(item: syn::Item) -> syn::Item {
    let f = syn::File { shebang: None, attrs: vec![], items: vec![item] };
    syn::parse_file(&prettyplease::unparse(&f)).expect("printed item parses").items.remove(0)
}
