//! C08: every fork's generated spec exposes exactly the newest definition of every public item.
use crate::tree::*;
use quote::{quote, ToTokens};
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, BTreeSet};
use syn::{FnArg, Item, ItemFn, Visibility};
use vcommon::{scenarios, Acc, Rng, Run};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Const,
    Struct,
    Type,
    Trait,
    Fn,
}
#[derive(Clone)]
struct Ent {
    kind: Kind,
    owner: usize,
    module: String,
    /// functions: the newest text; containers and traits: their constants
    f: Option<ItemFn>,
    expanded: bool,
    consts: Vec<String>,
}
type Spec = BTreeMap<String, Ent>;

/// functions that end with phase 0
const ENDED: [&str; 13] = [
    "get_unslashed_attesting_indices",
    "get_matching_source_attestations",
    "get_matching_target_attestations",
    "get_matching_head_attestations",
    "get_source_deltas",
    "get_target_deltas",
    "get_head_deltas",
    "get_inclusion_delay_deltas",
    "get_inactivity_penalty_deltas",
    "get_attestation_deltas",
    "get_attestation_component_deltas",
    "get_attesting_balance",
    "process_participation_record_updates",
];

fn public(v: &Visibility) -> bool {
    matches!(v, Visibility::Public(_))
}
fn defined(t: &Tree, f: usize) -> Spec {
    let mut s = Spec::new();
    for m in MODULES[f] {
        for item in syn::parse_file(&t[&(f, m.to_string())]).unwrap().items {
            let (name, kind, vis, func, consts) = match item {
                Item::Const(i) => (i.ident.to_string(), Kind::Const, i.vis, None, vec![]),
                Item::Struct(i) => (i.ident.to_string(), Kind::Struct, i.vis, None, consts(&i.generics)),
                Item::Type(i) => (i.ident.to_string(), Kind::Type, i.vis, None, vec![]),
                Item::Trait(i) => (i.ident.to_string(), Kind::Trait, i.vis, None, consts(&i.generics)),
                Item::Fn(i) => (i.sig.ident.to_string(), Kind::Fn, i.vis.clone(), Some(i), vec![]),
                _ => continue,
            };
            if public(&vis) {
                s.insert(name, Ent { kind, owner: f, module: m.to_string(), f: func, expanded: false, consts });
            }
        }
    }
    s
}
/// what each fork's spec has to expose; None where the generator's rules do not say
fn model(t: &Tree) -> Option<Vec<Spec>> {
    let mut all: Vec<Spec> = vec![];
    for f in 0..6 {
        let mut cur = defined(t, f);
        if let Some(prev) = all.last() {
            for (n, e) in prev.iter().filter(|(_, e)| e.kind != Kind::Fn) {
                cur.entry(n.clone()).or_insert_with(|| e.clone());
            }
            let mut inherited = vec![];
            for (n, e) in prev.iter().filter(|(_, e)| e.kind == Kind::Fn) {
                if cur.contains_key(n) || (f == 1 && ENDED.contains(&n.as_str())) {
                    continue;
                }
                let mut e = e.clone();
                let func = e.f.clone().unwrap();
                let mut changed: Vec<String> = vec![];
                for t in signature_types(&func) {
                    if cur.get(&t).is_some_and(|c| c.kind == Kind::Struct && c.owner == f) && !changed.contains(&t) {
                        changed.push(t);
                    }
                }
                if changed.is_empty() {
                    if e.expanded {
                        return None;
                    }
                } else {
                    let mut names: Vec<String> = vec![];
                    for c in &changed {
                        for n in &cur[c].consts {
                            if !names.contains(n) {
                                names.push(n.clone());
                            }
                        }
                    }
                    if names_in_macros(&func, &changed) {
                        return None;
                    }
                    let f2 = expand(&func, &changed, &cur, &names);
                    printable(&syn::File { shebang: None, attrs: vec![], items: vec![Item::Fn(f2.clone())] })?;
                    e.f = Some(f2);
                    e.expanded = true;
                    e.owner = f;
                }
                inherited.push((n.clone(), e));
            }
            cur.extend(inherited);
        }
        all.push(cur);
    }
    Some(all)
}
/// identifiers in the argument and return types, in order
fn signature_types(f: &ItemFn) -> Vec<String> {
    let mut v = vec![];
    for a in &f.sig.inputs {
        if let FnArg::Typed(a) = a {
            v.extend(flat(a.ty.to_token_stream()));
        }
    }
    v.extend(flat(f.sig.output.to_token_stream()));
    // types the body writes out for its variables
    struct V<'a>(&'a mut Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_local(&mut self, l: &'ast syn::Local) {
            if let syn::Pat::Type(p) = &l.pat {
                if matches!(*p.ty, syn::Type::Reference(_) | syn::Type::Path(_)) {
                    self.0.extend(flat(p.ty.to_token_stream()));
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    syn::visit::Visit::visit_block(&mut V(&mut v), &f.block);
    v
}
/// types written inside macro calls are out of the generator's sight
fn names_in_macros(f: &ItemFn, names: &[String]) -> bool {
    struct V<'a>(&'a [String], bool);
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            self.1 |= raw(m.tokens.clone()).iter().any(|t| self.0.contains(t));
        }
    }
    let mut v = V(names, false);
    syn::visit::Visit::visit_item_fn(&mut v, f);
    v.1
}
fn expand(f: &ItemFn, changed: &[String], cur: &Spec, names: &[String]) -> ItemFn {
    let mut whole = f.clone();
    let old = std::mem::take(&mut whole.sig.generics);
    let mut v = raw(whole.to_token_stream());
    for c in changed {
        v = reargue(&v, c, &cur[c].consts);
    }
    // flat() joins by spaces; multi-character operators were split into punctuation, so glue them back
    let text = glue(&v);
    let mut new: ItemFn = syn::parse_str(&text).unwrap_or_else(|e| panic!("harness: {e}: {text}"));
    let mut params: Vec<String> = vec![];
    for p in &old.params {
        match p {
            syn::GenericParam::Const(_) => {}
            p => {
                // a bound follows the newest form of its trait
                let mut v = raw(p.to_token_stream());
                for (n, e) in cur.iter().filter(|(_, e)| e.kind == Kind::Trait && !e.consts.is_empty()) {
                    v = reargue(&v, n, &e.consts);
                }
                params.push(glue(&v));
            }
        }
    }
    params.extend(names.iter().map(|n| format!("const {n}: usize")));
    params.sort_by_key(|p| !p.starts_with('\''));
    new.sig.generics = syn::parse_str(&format!("<{}>", params.join(", "))).unwrap();
    new
}
fn glue(v: &[String]) -> String {
    const OPS: [&str; 23] =
        ["<<=", ">>=", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "..", "<<", ">>"];
    let mut s = String::new();
    let mut i = 0;
    'outer: while i < v.len() {
        for op in OPS {
            let n = op.len();
            if i + n <= v.len() && v[i..i + n].concat() == op && v[i..i + n].iter().all(|x| x.len() == 1) {
                s += op;
                s += " ";
                i += n;
                continue 'outer;
            }
        }
        s += &v[i];
        // lifetimes come as an apostrophe and a name
        if v[i] != "'" {
            s += " ";
        }
        i += 1;
    }
    s
}

// ------------------------------------------------------------------ the generated file
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
struct Import {
    public: bool,
    path: String,
}
fn uses(i: &syn::ItemUse, out: &mut Vec<Import>) {
    fn go(t: &syn::UseTree, at: String, public: bool, out: &mut Vec<Import>) {
        let join = |x: String| if at.is_empty() { x } else { format!("{at}::{x}") };
        match t {
            syn::UseTree::Path(p) => go(&p.tree, join(p.ident.to_string()), public, out),
            syn::UseTree::Name(n) => out.push(Import { public, path: join(n.ident.to_string()) }),
            syn::UseTree::Rename(n) => out.push(Import { public, path: join(format!("{} as {}", n.ident, n.rename)) }),
            syn::UseTree::Glob(_) => out.push(Import { public, path: join("*".into()) }),
            syn::UseTree::Group(g) => g.items.iter().for_each(|t| go(t, at.clone(), public, out)),
        }
    }
    go(&i.tree, String::new(), public(&i.vis), out)
}
fn preamble(f: usize) -> Vec<(bool, String)> {
    let mut v: Vec<(bool, String)> = vec![];
    for p in ["primitives::*", "signing::*", "state_transition::Result", "state_transition::Context", "state_transition::Validation", "error::*"] {
        v.push((true, format!("crate::{p}")));
    }
    if f > 0 {
        for p in ["std::collections::HashSet", "crate::ssz::prelude::*", "crate::crypto::hash", "crate::crypto::fast_aggregate_verify"] {
            v.push((false, p.into()));
        }
        v.push((true, format!("crate::{0}::fork::upgrade_to_{0}", FORKS[f])));
    }
    if f > 1 {
        for p in [
            "std::mem",
            "std::collections::HashMap",
            "std::iter::zip",
            "integer_sqrt::IntegerSquareRoot",
            "crate::crypto::eth_aggregate_public_keys",
            "crate::crypto::eth_fast_aggregate_verify",
        ] {
            v.push((false, p.into()));
        }
    }
    v
}
fn generics_sets(g: &syn::Generics) -> BTreeSet<String> {
    g.params.iter().map(|p| text(p.to_token_stream())).collect()
}
fn compare(a: &mut Acc, f: usize, want: &Spec, file: &str, ctx: &dyn Fn() -> Json) {
    let fork = FORKS[f];
    let fail = |a: &mut Acc, sig: &str, more: Json| {
        let mut j = ctx();
        j["fork"] = json!(fork);
        j["what"] = more;
        a.violation(&format!("forks/{sig}"), j);
    };
    let parsed = match syn::parse_file(file) {
        Ok(p) => p,
        Err(e) => return fail(a, "output is not Rust", json!(e.to_string())),
    };
    let mut got_uses = vec![];
    let mut got_fns: BTreeMap<String, ItemFn> = BTreeMap::new();
    for i in parsed.items {
        match i {
            Item::Use(u) => uses(&u, &mut got_uses),
            Item::Fn(x) => {
                let n = x.sig.ident.to_string();
                if got_fns.insert(n.clone(), x).is_some() {
                    fail(a, "function generated twice", json!(n));
                }
            }
            i => fail(a, "unexpected item", json!(quote!(#i).to_string().chars().take(200).collect::<String>())),
        }
    }
    let mut want_uses: Vec<Import> = preamble(f).into_iter().map(|(public, path)| Import { public, path }).collect();
    let mut want_fns = vec![];
    for (n, e) in want {
        if e.expanded {
            want_fns.push((n, e));
        } else {
            want_uses.push(Import { public: true, path: format!("crate::{}::{}::{n}", FORKS[e.owner], e.module) });
        }
    }
    a.count("imports compared", want_uses.len() as u64);
    a.count("functions derived anew compared", want_fns.len() as u64);
    want_uses.sort();
    got_uses.sort();
    if want_uses != got_uses {
        let missing: Vec<_> = want_uses.iter().filter(|u| !got_uses.contains(u)).take(6).map(|u| &u.path).collect();
        let extra: Vec<_> = got_uses.iter().filter(|u| !want_uses.contains(u)).take(6).map(|u| &u.path).collect();
        let twice: Vec<_> = got_uses.windows(2).filter(|w| w[0] == w[1]).take(6).map(|w| &w[0].path).collect();
        fail(a, "items exposed", json!({"missing": missing, "not expected": extra, "twice": twice}));
    }
    for (n, e) in &want_fns {
        let Some(got) = got_fns.remove(*n) else {
            fail(a, "function not derived", json!(n));
            continue;
        };
        let Item::Fn(want) = canonical(Item::Fn(e.f.clone().unwrap())) else { unreachable!() };
        let mut differs = vec![];
        let mut cmp = |what: &str, x: String, y: String| {
            if x != y {
                differs.push(json!({"part": what, "want": x.chars().take(600).collect::<String>(), "got": y.chars().take(600).collect::<String>()}));
            }
        };
        cmp("visibility", text(want.vis.to_token_stream()), text(got.vis.to_token_stream()));
        cmp("arguments", text(want.sig.inputs.to_token_stream()), text(got.sig.inputs.to_token_stream()));
        cmp("result", text(want.sig.output.to_token_stream()), text(got.sig.output.to_token_stream()));
        cmp("generics", format!("{:?}", generics_sets(&want.sig.generics)), format!("{:?}", generics_sets(&got.sig.generics)));
        cmp("body", text(want.block.to_token_stream()), text(got.block.to_token_stream()));
        if !differs.is_empty() {
            fail(a, "derived function differs", json!({"function": n, "differences": differs}));
        }
    }
    if let Some(n) = got_fns.keys().next() {
        fail(a, "function derived needlessly", json!(n));
    }
}

fn observe(a: &mut Acc, t: &Tree, tag: &str, edits: &[String]) {
    let Some(want) = model(t) else {
        a.count("trees outside the rules", 1);
        return;
    };
    let s = Scratch::new(t, tag);
    let before = s.files().len();
    let (ok, err) = s.run("forks");
    a.eval(&edits, true);
    a.count("generator runs", 1);
    let ctx = || json!({"edits": edits});
    if !ok {
        let mut j = ctx();
        j["stderr"] = json!(err);
        a.violation("forks/generator failed", j);
        return;
    }
    for f in 0..6 {
        match s.read(&format!("{}/spec/mod.rs", FORKS[f])) {
            Some(x) => compare(a, f, &want[f], &x, &ctx),
            None => a.violation("forks/no output", json!({"fork": FORKS[f], "edits": edits})),
        }
    }
    // nothing else is written
    let after = s.files();
    a.check(after.len() == before + 6, "forks/files written", || json!({"edits": edits, "files": after.len() - before}));
    let untouched = t.iter().all(|((f, m), x)| s.read(&format!("{}/{m}.rs", FORKS[*f])).as_deref() == Some(x.as_str()));
    a.check(untouched, "forks/source overwritten", ctx);
    a.sample(|| json!({"edits": edits, "derived": want.iter().map(|s| s.values().filter(|e| e.expanded).count()).collect::<Vec<_>>()}));
}

// ------------------------------------------------------------------ other trees
fn edit(r: &mut Rng, t: &mut Tree, log: &mut Vec<String>) {
    let f = r.idx(6);
    let pick_module = |r: &mut Rng, f: usize| r.pick(MODULES[f]).to_string();
    let fns = |t: &Tree, f: usize, m: &str| -> Vec<ItemFn> {
        syn::parse_file(&t[&(f, m.to_string())])
            .unwrap()
            .items
            .into_iter()
            .filter_map(|i| match i {
                Item::Fn(i) if public(&i.vis) => Some(i),
                _ => None,
            })
            .collect()
    };
    // a name of its own for every edit
    let k = 1000 * log.len() as u64 + r.below(1000);
    match r.below(14) {
        11 => {
            // an item of one fork whose name comes back in other forks, there hidden or not
            let what = r.below(5);
            for x in f..6 {
                if x > f && r.chance(1, 2) {
                    continue;
                }
                let m = pick_module(r, x);
                let vis = if x == f { "pub " } else { *r.pick(&["", "pub(crate) ", "pub(super) ", "pub "]) };
                let text = match what {
                    0 => format!("{vis}const SHADE_{k}: u64 = {x};"),
                    1 => format!("{vis}struct Shade{k} {{ pub a: u64 }}"),
                    2 => format!("{vis}type Shade{k} = [u64; {x}];"),
                    3 => format!("{vis}trait Shade{k} {{ fn a{x}(&self) -> u64; }}"),
                    _ => format!("{vis}fn shade_{k}(n: u64) -> u64 {{ n + {x} }}"),
                };
                t.get_mut(&(x, m.clone())).unwrap().push_str(&format!("\n{text}\n"));
                log.push(format!("{text} in {}::{m}", FORKS[x]));
            }
        }
        12..=13 => {
            // containers whose names contain one another, each growing at forks of its own, and functions over several of them
            let names = [format!("Bag{k}"), format!("BigBag{k}"), format!("Bag{k}Lid"), format!("TheBag{k}Lids")];
            let widths = |c: usize, n: usize| -> Vec<String> { (0..n).map(|i| format!("W{c}_{k}_{i}")).collect() };
            let decl = |v: &[String]| v.iter().map(|n| format!("const {n}: usize")).collect::<Vec<_>>().join(", ");
            let mut args: Vec<Vec<String>> = vec![];
            for (c, name) in names.iter().enumerate() {
                let mut n = 1 + r.idx(2);
                // left alone for a while, and changed by every fork from then on
                let start = f + 1 + r.idx(3);
                for x in f..6 {
                    if x > f && x < start {
                        continue;
                    }
                    let w = widths(c, n);
                    let m = pick_module(r, x);
                    t.get_mut(&(x, m.clone())).unwrap().push_str(&format!("\npub struct {name}<{}> {{ pub a: u64 }}\n", decl(&w)));
                    log.push(format!("struct {name}<{}> in {}::{m}", w.join(", "), FORKS[x]));
                    if x == f {
                        args.push(w);
                    }
                    n += 1 + r.idx(2);
                }
            }
            let ty = |c: usize| format!("{}<{}>", names[c], args[c].join(", "));
            let m = pick_module(r, f);
            for i in 0..3 {
                let mut on = [0, 1, 2, 3];
                r.shuffle(&mut on);
                let on = &on[..2 + r.idx(3)];
                let params = on.iter().map(|c| format!("x{c}: {}{}", r.pick(&["&", "&mut ", ""]), ty(*c))).collect::<Vec<_>>().join(", ");
                let all: Vec<String> = on.iter().flat_map(|c| args[*c].clone()).collect();
                let result = *r.pick(on);
                let body = format!("let y = {}::<{}> {{ a: x{}.a }}; y", names[result], args[result].join(", "), on[0]);
                let text = format!("pub fn pack_{k}_{i}<{}>({params}) -> {} {{ {body} }}", decl(&all), ty(result));
                log.push(format!("{text} in {}::{m}", FORKS[f]));
                t.get_mut(&(f, m.clone())).unwrap().push_str(&format!("\n{text}\n"));
            }
        }
        10 => {
            // a container that grows in every fork, and functions over it
            let judged = r.chance(1, 2);
            let coin = f + 1 + r.idx(3);
            for x in f..6 {
                let m = pick_module(r, x);
                let own: Vec<String> = (0..1 + (x - f) / (1 + k as usize % 2)).map(|i| format!("WIDTH_{k}_{i}")).collect();
                let decl = own.iter().map(|n| format!("const {n}: usize")).collect::<Vec<_>>().join(", ");
                let args = own.join(", ");
                let mut text = format!("\npub struct Crate{k}<{decl}> {{ pub a: u64 }}\n");
                if x == f || x >= coin {
                    // one without constants
                    text += &format!("pub struct Coin{k} {{ pub a: u64, pub b{x}: u64 }}\n");
                }
                if x == f {
                    text += &format!("pub fn spend_{k}(c: &mut Coin{k}) -> Result<Coin{k}> {{ c.a -= 1; Ok(Coin{k} {{ a: c.a, ..Default::default() }}) }}\n");
                    text += &format!("pub fn stored_{k}<{decl}>(c: &Crate{k}<{args}>, x: &Coin{k}) -> u64 {{ c.a + x.a }}\n");
                }
                if judged {
                    text += &format!("pub trait Judge{k}<{decl}> {{ fn weigh(&self, c: &Crate{k}<{args}>) -> u64; }}\n");
                    text += &format!("pub trait Clerk{k}<{decl}> {{ fn file(&self, c: &Crate{k}<{args}>) -> u64; }}\n");
                }
                if x == f {
                    let state = container_consts(t, x, "BeaconState");
                    let sdecl = state.iter().map(|n| format!("const {n}: usize")).collect::<Vec<_>>().join(", ");
                    let sargs = state.join(", ");
                    text += &format!("pub fn fill_{k}<{decl}>(c: &mut Crate{k}<{args}>) -> Result<()> {{ c.a += 1; Ok(()) }}\n");
                    text += &format!("pub fn make_{k}<{decl}>(n: u64) -> Result<Vec<Crate{k}<{args}>>> {{ let c = Crate{k}::<{args}> {{ a: n }}; Ok(vec![c]) }}\n");
                    text += &format!("pub fn local_{k}<{decl}>(n: u64) -> u64 {{ let c: Crate{k}<{args}> = Crate{k} {{ a: n }}; c.a }}\n");
                    text += &format!("pub fn listed_{k}<{decl}>(n: u64) -> u64 {{ if n > 1 {{ let v: Vec<Crate{k}<{args}>> = Vec::new(); return v.len() as u64 }} n }}\n");
                    if judged {
                        text += &format!("pub fn judged_{k}<{decl}, J: Judge{k}<{args}>, C: Clerk{k}<{args}>>(c: &Crate{k}<{args}>, j: J, e: &C) -> u64 {{ j.weigh(c) + e.file(c) }}\n");
                        text += &format!("pub fn filed_{k}<{decl}, C: Clerk{k}<{args}>>(e: &mut C, c: Crate{k}<{args}>) -> Result<()> {{ e.file(&c); Ok(()) }}\n");
                    }
                    text += &format!("pub fn both_{k}<{decl}, {sdecl}>(c: &Crate{k}<{args}>, state: &mut BeaconState<{sargs}>) -> Crate{k}<{args}> {{ state.slot += c.a; make_{k}::<{args}>(3) }}\n");
                }
                t.get_mut(&(x, m.clone())).unwrap().push_str(&text);
                log.push(format!("struct Crate{k}<{args}> in {}::{m}", FORKS[x]));
            }
        }
        0..=1 => {
            let m = pick_module(r, f);
            t.get_mut(&(f, m.clone())).unwrap().push_str(&format!("\npub const NEW_{k}: u64 = {k};\n"));
            log.push(format!("new constant NEW_{k} in {}::{m}", FORKS[f]));
        }
        2 => {
            // the same constant in two forks
            let g = r.idx(6);
            for x in BTreeSet::from([f, g]) {
                let m = pick_module(r, x);
                t.get_mut(&(x, m.clone())).unwrap().push_str(&format!("\npub const AGAIN_{k}: u64 = {x};\n"));
                log.push(format!("constant AGAIN_{k} in {}::{m}", FORKS[x]));
            }
        }
        3 => {
            let m = pick_module(r, f);
            let vis = *r.pick(&["pub ", "pub(crate) ", ""]);
            let what = match r.below(3) {
                0 => format!("{vis}struct Extra{k} {{ pub a: u64 }}"),
                1 => format!("{vis}type Extra{k} = u64;"),
                _ => format!("{vis}trait Extra{k} {{ fn a(&self) -> u64; }}"),
            };
            t.get_mut(&(f, m.clone())).unwrap().push_str(&format!("\n{what}\n"));
            log.push(format!("{what} in {}::{m}", FORKS[f]));
        }
        4..=5 => {
            // a new function over the state, redefined in a later fork or not
            let vis = *r.pick(&["pub ", "pub ", "pub ", "pub(crate) ", ""]);
            for x in BTreeSet::from([f, r.idx(6)]) {
                let m = pick_module(r, x);
                let state = container_consts(t, x, "BeaconState");
                let g = state.iter().map(|n| format!("const {n}: usize")).collect::<Vec<_>>().join(", ");
                let st = format!("BeaconState<{}>", state.join(", "));
                let body = *r.pick(&["state.slot + n", "{ let s = BeaconState::<ARGS>::default(); s.slot }", "if n > 3 && state.slot >= 2 { n << 1 } else { n }"]);
                let body = body.replace("ARGS", &state.join(", "));
                let head = match r.below(5) {
                    3 => format!("fn extra_{k}<'a, 'b, {g}>(state: &'a {st}, n: &'b u64) -> &'a u64"),
                    4 => format!("fn extra_{k}<F: Fn(u64), G: Copy, {g}>(state: &{st}, n: u64, f: F, g: G) -> u64"),
                    0 => format!("fn extra_{k}<{g}>(state: &{st}, n: u64) -> u64"),
                    1 => format!("fn extra_{k}<{g}>(n: u64, state: &mut {st}) -> u64"),
                    _ => format!("fn extra_{k}<'a, {g}>(state: &'a {st}, n: u64) -> u64"),
                };
                t.get_mut(&(x, m.clone())).unwrap().push_str(&format!("\n{vis}{head} {{ {body} }}\n"));
                log.push(format!("{vis}fn extra_{k} in {}::{m}", FORKS[x]));
            }
        }
        6 => {
            // a helper without containers
            for x in BTreeSet::from([f, r.idx(6)]) {
                let m = pick_module(r, x);
                t.get_mut(&(x, m.clone())).unwrap().push_str(&format!("\npub fn plain_{k}(n: u64) -> Result<u64> {{ Ok(n + {x}) }}\n"));
                log.push(format!("fn plain_{k} in {}::{m}", FORKS[x]));
            }
        }
        _ => {
            // a definition of the fork taken away, hidden, or copied into a later fork
            let m = pick_module(r, f);
            let v = fns(t, f, &m);
            if v.is_empty() {
                return;
            }
            let it = r.pick(&v).clone();
            let name = it.sig.ident.to_string();
            let mut file = syn::parse_file(&t[&(f, m.clone())]).unwrap();
            if printable(&file).is_none() {
                return;
            }
            match r.below(3) {
                0 => {
                    file.items.retain(|i| !matches!(i, Item::Fn(x) if x.sig.ident == name));
                    log.push(format!("removed {}::{m}::{name}", FORKS[f]));
                }
                1 => {
                    for i in file.items.iter_mut() {
                        if let Item::Fn(x) = i {
                            if x.sig.ident == name {
                                x.vis = Visibility::Inherited;
                            }
                        }
                    }
                    log.push(format!("hid {}::{m}::{name}", FORKS[f]));
                }
                _ => {
                    let g = (f + 1 + r.idx(5)) % 6;
                    let m2 = pick_module(r, g);
                    let mut there = syn::parse_file(&t[&(g, m2.clone())]).unwrap();
                    if g > f && !MODULES[g].iter().any(|m| fns(t, g, m).iter().any(|x| x.sig.ident == name)) {
                        // over that fork's own state
                        let mut v = raw(it.to_token_stream());
                        let mut gen = consts(&it.sig.generics);
                        for c in signature_types(&it) {
                            let n = container_consts(t, g, &c);
                            if !n.is_empty() {
                                v = reargue(&v, &c, &n);
                                n.into_iter().for_each(|n| if !gen.contains(&n) { gen.push(n) });
                            }
                        }
                        let mut it: ItemFn = syn::parse_str(&glue(&v)).unwrap();
                        for n in gen {
                            if !consts(&it.sig.generics).contains(&n) {
                                it.sig.generics.params.push(syn::parse_str(&format!("const {n}: usize")).unwrap());
                            }
                        }
                        it.block.stmts.insert(0, syn::parse_quote!(let _ = #k;));
                        there.items.push(Item::Fn(it));
                        let Some(x) = printable(&there) else { return };
                        t.insert((g, m2.clone()), x);
                        log.push(format!("{name} defined anew in {}::{m2}", FORKS[g]));
                    }
                    return;
                }
            }
            t.insert((f, m), prettyplease::unparse(&file));
        }
    }
}
fn container_consts(t: &Tree, f: usize, name: &str) -> Vec<String> {
    for m in MODULES[f] {
        for i in syn::parse_file(&t[&(f, m.to_string())]).unwrap().items {
            if let Item::Struct(s) = i {
                if s.ident == name {
                    return consts(&s.generics);
                }
            }
        }
    }
    vec![]
}

/// a small tree of its own: a state and a block that grow with the forks, functions over them
fn small() -> Tree {
    let mut t = Tree::new();
    for f in 0..6 {
        for m in MODULES[f] {
            t.insert((f, m.to_string()), "use crate::ssz::prelude::*;\n".into());
        }
        let names = |p: &str, n: usize| (0..n).map(|i| format!("{p}_{i}")).collect::<Vec<_>>();
        let (s, b) = (names("STATE", 2 + f), names("BLOCK", 1 + f / 2));
        let decl = |v: &[String]| v.iter().map(|n| format!("const {n}: usize")).collect::<Vec<_>>().join(", ");
        let both: Vec<String> = s.iter().chain(&b).cloned().collect();
        *t.get_mut(&(f, "beacon_state".into())).unwrap() += &format!("pub struct BeaconState<{}> {{ pub slot: u64 }}\n", decl(&s));
        *t.get_mut(&(f, "beacon_block".into())).unwrap() += &format!("pub struct BeaconBlock<{}> {{ pub slot: u64 }}\n", decl(&b));
        let (sa, ba) = (s.join(", "), b.join(", "));
        let h = t.get_mut(&(f, "helpers".into())).unwrap();
        *h += &format!("pub fn from_fork_{f}<{}>(state: &BeaconState<{sa}>) -> u64 {{ state.slot * {f} }}\n", decl(&s));
        *h += &format!("fn inner_{f}<{}>(state: &BeaconState<{sa}>) -> u64 {{ state.slot }}\n", decl(&s));
        *t.get_mut(&(f, "block_processing".into())).unwrap() += &format!(
            "pub fn apply_{f}<{}>(state: &mut BeaconState<{sa}>, block: &BeaconBlock<{ba}>) -> Result<()> {{ if block.slot <= state.slot {{ return Err(()) }} state.slot = block.slot; Ok(()) }}\n",
            decl(&both)
        );
        if f % 2 == 0 {
            *t.get_mut(&(f, "epoch_processing".into())).unwrap() += &format!("pub fn renewed<{}>(state: &mut BeaconState<{sa}>) {{ state.slot += {f}; }}\n", decl(&s));
        }
    }
    t
}

pub fn c08() {
    let mut run = Run::new("C08", 120, 1200);
    run.rule("one execution = one run of the generator on a tree of fork diffs (the repository's, or with definitions added, removed, hidden or redefined at random forks), its six output files compared with an independent model of fork inheritance; distinct = distinct edit sequences");
    run.assume("the generator runs as a process in a scratch directory");
    scenarios(&mut run, 200, |a, i, r| {
        let own = i % 3 != 0;
        let mut t = if own { small() } else { real().clone() };
        let mut log = vec![];
        if own {
            log.push("a small tree".into());
        }
        if i > 0 {
            for _ in 0..1 + r.idx(if own { 16 } else { 8 }) {
                edit(r, &mut t, &mut log);
            }
        }
        observe(a, &t, &format!("f{i}"), &log);
    });
    run.floor("generator runs", 30);
    run.floor("functions derived anew compared", 500);
    run.finish()
}
