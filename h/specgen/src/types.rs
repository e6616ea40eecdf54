//! C09: the fork-polymorphic types follow from the structs the forks define.
use crate::tree::*;
use quote::ToTokens;
use serde_json::{json, Value as Json};
use std::collections::{BTreeMap, BTreeSet};
use syn::{Item, ItemStruct};
use vcommon::{scenarios, Acc, Rng, Run};

/// type, module of its definitions, (polymorphic field, type behind it), has reference types
type Kind = (&'static str, &'static str, Option<(&'static str, &'static str)>, bool);
const TYPES: [Kind; 9] = [
    ("BeaconBlockBody", "beacon_block", Some(("execution_payload", "ExecutionPayload")), true),
    ("BeaconBlock", "beacon_block", Some(("body", "BeaconBlockBody")), true),
    ("SignedBeaconBlock", "beacon_block", Some(("message", "BeaconBlock")), false),
    ("BlindedBeaconBlockBody", "blinded_beacon_block", Some(("execution_payload_header", "ExecutionPayloadHeader")), true),
    ("BlindedBeaconBlock", "blinded_beacon_block", Some(("body", "BlindedBeaconBlockBody")), true),
    ("SignedBlindedBeaconBlock", "blinded_beacon_block", Some(("message", "BlindedBeaconBlock")), false),
    ("ExecutionPayload", "execution_payload", None, true),
    ("ExecutionPayloadHeader", "execution_payload", None, true),
    ("BeaconState", "beacon_state", Some(("latest_execution_payload_header", "ExecutionPayloadHeader")), true),
];
/// forks the polymorphic types cover
const COVERED: usize = 5;
const BY_VALUE: [&str; 5] = ["Root", "Slot", "ValidatorIndex", "WithdrawalIndex", "u64"];

fn snake(n: &str) -> String {
    let mut s = String::new();
    for c in n.chars() {
        if c.is_uppercase() && !s.is_empty() {
            s.push('_');
        }
        s.push(c.to_ascii_lowercase());
    }
    s
}
fn find(t: &Tree, f: usize, module: &str, name: &str) -> Option<ItemStruct> {
    let src = t.get(&(f, module.to_string()))?;
    syn::parse_file(src).unwrap().items.into_iter().find_map(|i| match i {
        Item::Struct(s) if s.ident == name => Some(s),
        _ => None,
    })
}

struct Model {
    /// item key -> text
    items: BTreeMap<String, String>,
    accessors: usize,
}
fn angle(args: &[String]) -> String {
    if args.is_empty() { String::new() } else { format!("<{}>", args.join(", ")) }
}
fn model(t: &Tree, k: &Kind) -> Model {
    let (name, module, poly, refs) = *k;
    let defs: Vec<(usize, ItemStruct)> = (0..COVERED).filter_map(|f| find(t, f, module, name).map(|s| (f, s))).collect();
    let mut merged: Vec<String> = vec![];
    let mut fields: Vec<(String, syn::Type)> = vec![];
    for (_, d) in &defs {
        for c in consts(&d.generics) {
            if !merged.contains(&c) {
                merged.push(c);
            }
        }
        for x in &d.fields {
            let n = x.ident.as_ref().unwrap().to_string();
            match fields.iter_mut().find(|(m, _)| *m == n) {
                Some(e) => e.1 = x.ty.clone(),
                None => fields.push((n, x.ty.clone())),
            }
        }
    }
    let has = |d: &ItemStruct, n: &str| d.fields.iter().any(|x| x.ident.as_ref().unwrap() == n);
    let mut src = String::new();
    let decl: Vec<String> = merged.iter().map(|n| format!("const {n}: usize")).collect();
    let with = |extra: &str| -> String {
        let mut v = vec![extra.to_string()];
        v.extend(decl.iter().cloned());
        angle(&v)
    };
    let with_args = |extra: &str| -> String {
        let mut v = vec![extra.to_string()];
        v.extend(merged.iter().cloned());
        angle(&v)
    };
    let mut accessors = 0;
    // 0: owned, 1: Ref, 2: RefMut
    for flavour in 0..if refs { 3 } else { 1 } {
        let suffix = ["", "Ref", "RefMut"][flavour];
        let hold = ["", "&'a ", "&'a mut "][flavour];
        let (g, a) = if flavour == 0 { (angle(&decl), angle(&merged)) } else { (with("'a"), with_args("'a")) };
        src += if flavour == 0 {
            "#[derive(Debug, Clone, PartialEq, Eq, Serializable, HashTreeRoot, serde::Serialize)] #[ssz(transparent)] #[serde(untagged)]"
        } else {
            "#[derive(Debug, PartialEq, Eq, HashTreeRoot)] #[ssz(transparent)]"
        };
        src += &format!("pub enum {name}{suffix}{g} {{");
        for (f, d) in &defs {
            src += &format!("{}({hold}{}::{name}{}),", pascal(*f), FORKS[*f], angle(&consts(&d.generics)));
        }
        src += "}\n";
        src += &format!("impl{g} {name}{suffix}{a} {{\n");
        for (f, d) in &defs {
            let ty = format!("{}::{name}{}", FORKS[*f], angle(&consts(&d.generics)));
            let body = format!("match self {{ Self::{}(inner) => Some(inner), _ => None, }}", pascal(*f));
            src += &format!("pub fn {}(&self) -> Option<&{ty}> {{ {body} }}\n", FORKS[*f]);
            if flavour != 1 {
                src += &format!("pub fn {}_mut(&mut self) -> Option<&mut {ty}> {{ {body} }}\n", FORKS[*f]);
            }
        }
        src += "pub fn version(&self) -> Version { match self {";
        for (f, _) in &defs {
            src += &format!("Self::{0}(_) => Version::{0},", pascal(*f));
        }
        src += "} }\n";
        for (n, ty) in &fields {
            let everywhere = defs.iter().all(|(_, d)| has(d, n));
            let behind = poly.filter(|(p, _)| p == n).map(|(_, b)| b);
            let tokens = flat(ty.to_token_stream());
            let by_value = behind.is_none() && tokens.len() == 1 && BY_VALUE.contains(&tokens[0].as_str());
            for mutable in [false, true] {
                if mutable && flavour == 1 {
                    continue;
                }
                accessors += 1;
                let m = if mutable { "mut " } else { "" };
                let mut out = match behind {
                    Some(b) => {
                        let args: Vec<String> = match ty {
                            syn::Type::Path(p) => match &p.path.segments.last().unwrap().arguments {
                                syn::PathArguments::AngleBracketed(a) => a.args.iter().map(|x| text(x.to_token_stream())).collect(),
                                _ => vec![],
                            },
                            _ => vec![],
                        };
                        format!("{b}{}{}", if mutable { "RefMut" } else { "Ref" }, angle(&args))
                    }
                    None if by_value && !mutable => text(ty.to_token_stream()),
                    None => format!("&{m}{}", ty.to_token_stream()),
                };
                let mut get = if by_value && !mutable { format!("inner.{n}") } else { format!("&{m}inner.{n}") };
                if behind.is_some() {
                    get = format!("From::from({get})");
                }
                if !everywhere {
                    out = format!("Option<{out}>");
                    get = format!("Some({get})");
                }
                src += &format!("pub fn {n}{}(&{m}self) -> {out} {{ match self {{", if mutable { "_mut" } else { "" });
                for (f, d) in &defs {
                    src += &if has(d, n) { format!("Self::{}(inner) => {get},", pascal(*f)) } else { format!("Self::{}(_) => None,", pascal(*f)) };
                }
                src += "} }\n";
            }
        }
        src += "}\n";
        if flavour == 0 {
            src += &format!("impl{} serde::Deserialize<'de> for {name}{a} {{", with("'de"));
            src += "fn deserialize<D>(deserializer: D) -> Result<Self, D::Error> where D: serde::Deserializer<'de>, { let value = serde_json::Value::deserialize(deserializer)?;";
            for (f, _) in defs.iter().rev() {
                src += &format!("if let Ok(inner) = <_ as serde::Deserialize>::deserialize(&value) {{ return Ok(Self::{}(inner)); }}", pascal(*f));
            }
            src += "Err(serde::de::Error::custom(\"no variant could be deserialized from input\")) } }\n";
        } else {
            for (f, d) in &defs {
                let ty = format!("{hold}{}::{name}{}", FORKS[*f], angle(&consts(&d.generics)));
                src += &format!("impl{g} From<{ty}> for {name}{suffix}{a} {{ fn from(value: {ty}) -> Self {{ Self::{}(value) }} }}\n", pascal(*f));
            }
        }
    }
    let file = syn::parse_file(&src).unwrap_or_else(|e| panic!("harness: {e}: {}", src.chars().take(400).collect::<String>()));
    let file = syn::parse_file(&prettyplease::unparse(&file)).unwrap();
    Model { items: itemise(file.items, &mut vec![]), accessors }
}

fn norm(ts: proc_macro2::TokenStream) -> String {
    let v = flat(ts);
    let mut o: Vec<String> = vec![];
    for t in v {
        // no arguments at all
        if t == ">" && o.last().is_some_and(|l| l == "<") {
            o.pop();
            continue;
        }
        o.push(t);
    }
    o.join(" ")
}
/// body of a method with the arms of its only match in a fixed order
fn body(b: &syn::Block) -> String {
    if let [syn::Stmt::Expr(syn::Expr::Match(m))] = &b.stmts[..] {
        let mut arms: Vec<String> = m
            .arms
            .iter()
            .map(|a| {
                let e = match &*a.body {
                    syn::Expr::Block(x) if x.block.stmts.len() == 1 => norm(x.block.stmts[0].to_token_stream()),
                    e => norm(e.to_token_stream()),
                };
                format!("{} => {e}", norm(a.pat.to_token_stream()))
            })
            .collect();
        arms.sort();
        return format!("match {} {{ {} }}", norm(m.expr.to_token_stream()), arms.join(" , "));
    }
    norm(b.to_token_stream())
}
fn itemise(items: Vec<Item>, twice: &mut Vec<String>) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut put = |k: String, v: String| {
        if m.insert(k.clone(), v).is_some() {
            twice.push(k);
        }
    };
    for i in items {
        match i {
            Item::Use(_) => {}
            Item::Enum(e) => {
                let attrs: BTreeSet<String> = e
                    .attrs
                    .iter()
                    .flat_map(|a| {
                        let t = norm(a.tokens.clone());
                        let n = a.path.to_token_stream().to_string();
                        t.trim_matches(|c| c == '(' || c == ')' || c == ' ').split(" , ").map(|x| format!("{n} {x}")).collect::<Vec<_>>()
                    })
                    .collect();
                put(format!("enum {}", e.ident), format!("{attrs:?} {} {} {}", norm(e.vis.to_token_stream()), norm(e.generics.to_token_stream()), norm(e.variants.to_token_stream())));
            }
            Item::Impl(i) => {
                let ty = norm(i.self_ty.to_token_stream());
                let tr = i.trait_.as_ref().map(|t| norm(t.1.to_token_stream())).unwrap_or_default();
                let head = format!("impl {tr} for {ty}");
                put(head.clone(), norm(i.generics.to_token_stream()));
                for x in i.items {
                    match x {
                        syn::ImplItem::Method(x) => {
                            let k = format!("{head} :: {}", x.sig.ident);
                            put(k, format!("{} {} {}", norm(x.vis.to_token_stream()), norm(x.sig.to_token_stream()), body(&x.block)));
                        }
                        x => put(format!("{head} other"), norm(x.to_token_stream())),
                    }
                }
            }
            i => put(format!("other {}", norm(i.to_token_stream()).chars().take(80).collect::<String>()), String::new()),
        }
    }
    m
}

fn observe(a: &mut Acc, t: &Tree, tag: &str, edits: &[String]) {
    let s = Scratch::new(t, tag);
    let before = s.files().len();
    let (ok, err) = s.run("types");
    a.eval(&edits, true);
    a.count("generator runs", 1);
    if !ok {
        return a.violation("types/generator failed", json!({"edits": edits, "stderr": err}));
    }
    for k in &TYPES {
        let want = model(t, k);
        let fail = |a: &mut Acc, sig: &str, what: Json| a.violation(&format!("types/{sig}"), json!({"edits": edits, "type": k.0, "what": what}));
        let Some(out) = s.read(&format!("types/{}.rs", snake(k.0))) else {
            fail(a, "no output", json!(null));
            continue;
        };
        let file = match syn::parse_file(&out) {
            Ok(f) => f,
            Err(e) => {
                fail(a, "output is not Rust", json!(e.to_string()));
                continue;
            }
        };
        let mut twice = vec![];
        let got = itemise(file.items, &mut twice);
        a.count("items compared", want.items.len() as u64);
        a.count("accessors compared", want.accessors as u64);
        if !twice.is_empty() {
            fail(a, "generated twice", json!(twice));
        }
        for (n, w) in &want.items {
            match got.get(n) {
                None => fail(a, "item missing", json!({"item": n, "want": w})),
                Some(g) if g != w => fail(a, "item differs", json!({"item": n, "want": w, "got": g})),
                _ => {}
            }
        }
        if let Some(n) = got.keys().find(|n| !want.items.contains_key(*n)) {
            fail(a, "item not expected", json!(n));
        }
    }
    a.check(s.files().len() == before + TYPES.len(), "types/files written", || json!({"edits": edits}));
    a.check(t.iter().all(|((f, m), x)| s.read(&format!("{}/{m}.rs", FORKS[*f])).as_deref() == Some(x.as_str())), "types/source overwritten", || json!({"edits": edits}));
    a.sample(|| json!({"edits": edits}));
}

// ------------------------------------------------------------------ other structs
fn change(t: &mut Tree, f: usize, module: &str, name: &str, mut with: impl FnMut(&mut ItemStruct)) -> bool {
    let key = (f, module.to_string());
    let Some(src) = t.get(&key) else { return false };
    let mut file = syn::parse_file(src).unwrap();
    for i in file.items.iter_mut() {
        if let Item::Struct(s) = i {
            if s.ident == name {
                with(s);
                let Some(x) = printable(&file) else { return false };
                t.insert(key, x);
                return true;
            }
        }
    }
    false
}
fn push_field(s: &mut ItemStruct, n: &str, ty: &str, at: usize) {
    let w: ItemStruct = syn::parse_str(&format!("struct X {{ pub {n}: {ty} }}")).unwrap();
    let f = w.fields.into_iter().next().unwrap();
    if let syn::Fields::Named(x) = &mut s.fields {
        let mut v: Vec<syn::Field> = x.named.iter().cloned().collect();
        v.insert(at.min(v.len()), f);
        x.named = v.into_iter().collect();
    }
}
const FIELD_TYPES: [&str; 15] = [
    "Option<Slot>",
    "(u64, Root)",
    "Fork",
    "u64",
    "Root",
    "Slot",
    "ValidatorIndex",
    "WithdrawalIndex",
    "Gwei",
    "bool",
    "[u8; 4]",
    "List<u64, 4>",
    "Vector<Root, 8>",
    "Vec<u64>",
    "crate::primitives::u64",
];
fn edit(r: &mut Rng, t: &mut Tree, log: &mut Vec<String>) {
    let (name, module, poly, _) = *r.pick(&TYPES);
    let defs: Vec<usize> = (0..COVERED).filter(|f| find(t, *f, module, name).is_some()).collect();
    if defs.is_empty() {
        return;
    }
    let from = defs[r.idx(defs.len())];
    let on: Vec<usize> = defs.iter().copied().filter(|f| *f >= from).collect();
    let k = 1000 * log.len() as u64 + r.below(1000);
    match r.below(11) {
        8 => {
            // other structs of the module, with names around the type's own, and one of its name further in
            for f in on {
                let key = (f, module.to_string());
                let other = match r.below(5) {
                    0 => format!("pub struct {name}Extra<const Z{k}: usize> {{ pub other_{k}: u64 }}"),
                    1 => format!("pub struct Other{name} {{ pub other_{k}: u64 }}"),
                    2 => format!("pub struct {} {{ pub other_{k}: Root }}", &name[..name.len() - 1]),
                    3 => format!("pub mod other_{k} {{ pub struct {name} {{ pub other_{k}: u64 }} }}"),
                    _ => format!("pub type Other{k} = {name}Other; pub enum Or{name} {{ {name} }}"),
                };
                let first = r.chance(1, 2);
                let mut file = syn::parse_file(&t[&key]).unwrap();
                let new = syn::parse_file(&other).unwrap().items;
                let at = if first { 0 } else { file.items.len() };
                file.items.splice(at..at, new);
                let Some(x) = printable(&file) else { return };
                t.insert(key, x);
            }
            log.push(format!("structs beside {name} from {}", FORKS[from]));
        }
        9 => {
            // the type begins with a later fork (the state's fields end with altair, so it keeps phase0)
            if from != defs[0] && name != "BeaconState" {
                for f in defs.iter().copied().filter(|f| *f < from) {
                    let key = (f, module.to_string());
                    let mut file = syn::parse_file(&t[&key]).unwrap();
                    file.items.retain(|i| !matches!(i, Item::Struct(s) if s.ident == name));
                    let Some(x) = printable(&file) else { return };
                    t.insert(key, x);
                }
                log.push(format!("{name} begins with {}", FORKS[from]));
            }
        }
        10 => {
            // a fork between others defines no struct of this name
            if from != defs[0] && name != "BeaconState" {
                let key = (from, module.to_string());
                let mut file = syn::parse_file(&t[&key]).unwrap();
                file.items.retain(|i| !matches!(i, Item::Struct(s) if s.ident == name));
                let Some(x) = printable(&file) else { return };
                t.insert(key, x);
                log.push(format!("{name} missing in {}", FORKS[from]));
            }
        }
        0..=2 => {
            let ty = *r.pick(&FIELD_TYPES);
            let at = r.idx(30);
            let at = if r.chance(1, 2) { 99 } else { at };
            for f in on {
                change(t, f, module, name, |s| push_field(s, &format!("extra_{k}"), ty, at));
            }
            log.push(format!("{name}.extra_{k}: {ty} from {}", FORKS[from]));
        }
        3..=4 => {
            // a field's type changes with a fork
            let fields: Vec<String> = find(t, from, module, name).unwrap().fields.iter().map(|f| f.ident.as_ref().unwrap().to_string()).filter(|n| poly.map(|p| p.0) != Some(n.as_str())).collect();
            if fields.is_empty() {
                return;
            }
            let n = r.pick(&fields).clone();
            let ty = *r.pick(&FIELD_TYPES);
            for f in on {
                change(t, f, module, name, |s| {
                    for x in s.fields.iter_mut() {
                        if x.ident.as_ref().unwrap() == &n {
                            x.ty = syn::parse_str(ty).unwrap();
                        }
                    }
                });
            }
            log.push(format!("{name}.{n} becomes {ty} in {}", FORKS[from]));
        }
        5..=6 => {
            // another constant, and the containers around the type pass it on
            let c = format!("NEW_{k}");
            let first = r.chance(1, 4);
            for f in on.iter().copied() {
                change(t, f, module, name, |s| {
                    let p: syn::GenericParam = syn::parse_str(&format!("const {c}: usize")).unwrap();
                    if first {
                        s.generics.params.insert(0, p)
                    } else {
                        s.generics.params.push(p)
                    }
                    push_field(s, &format!("sized_{k}"), &format!("List<u8, {c}>"), 99);
                });
                for (outer, module, p, _) in TYPES.iter() {
                    if let Some((field, b)) = p {
                        if *b == name {
                            change(t, f, module, outer, |s| {
                                for x in s.fields.iter_mut() {
                                    if x.ident.as_ref().unwrap() != field {
                                        continue;
                                    }
                                    if let syn::Type::Path(p) = &mut x.ty {
                                        match &mut p.path.segments.last_mut().unwrap().arguments {
                                            syn::PathArguments::AngleBracketed(a) => a.args.push(syn::parse_str(&c).unwrap()),
                                            x => *x = syn::PathArguments::AngleBracketed(syn::parse_str(&format!("<{c}>")).unwrap()),
                                        }
                                    }
                                }
                                if !s.generics.params.is_empty() || r.chance(1, 2) {
                                    s.generics.params.push(syn::parse_str(&format!("const {c}: usize")).unwrap());
                                }
                            });
                        }
                    }
                }
            }
            log.push(format!("{name} gets {c} from {}{}", FORKS[from], if first { ", ahead of the others" } else { "" }));
        }
        _ => {
            // the type ends with a fork (the state keeps at least two)
            if on.len() < defs.len() && !(name == "BeaconState" && from < 2) {
                for f in on {
                    let key = (f, module.to_string());
                    let mut file = syn::parse_file(&t[&key]).unwrap();
                    file.items.retain(|i| !matches!(i, Item::Struct(s) if s.ident == name));
                    let Some(x) = printable(&file) else { return };
                    t.insert(key, x);
                }
                log.push(format!("{name} ends before {}", FORKS[from]));
            }
        }
    }
}

pub fn c09() {
    let mut run = Run::new("C09", 120, 1200);
    run.rule("one execution = one run of the generator on a tree of fork definitions (the repository's, or with fields, field types, constants and whole definitions changed from a random fork on), its nine output files compared with an independent model; distinct = distinct edit sequences");
    run.assume("the generator runs as a process in a scratch directory");
    scenarios(&mut run, 120, |a, i, r| {
        let mut t = real().clone();
        let mut log = vec![];
        if i > 0 {
            for _ in 0..1 + r.idx(8) {
                edit(r, &mut t, &mut log);
            }
        }
        observe(a, &t, &format!("t{i}"), &log);
    });
    run.floor("generator runs", 40);
    run.floor("accessors compared", 10_000);
    run.finish()
}
