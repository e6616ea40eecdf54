//! C10: SSZ codec. C11: hash tree roots. C12: JSON mapping. For every container of every fork and preset.
use crate::{
    repo::{dec, electra_types, enc, Fail},
    run::*,
    schema::{Fork::*, *},
    ty::{Ty, Val},
};
use ethereum_consensus::{altair, bellatrix, capella, deneb, electra, phase0, ssz::prelude::HashTreeRoot};
use serde_json::Value as Json;
use vcommon::{guard, hexs, json, Rng, Run};

type E<T> = Result<T, String>;
pub struct Api {
    pub fork: Fork,
    pub preset: Preset,
    pub name: &'static str,
    /// decode, then encode again
    pub recode: fn(&[u8]) -> E<Vec<u8>>,
    pub root: fn(&[u8]) -> E<[u8; 32]>,
    pub to_json: fn(&[u8]) -> E<Json>,
    pub to_text: fn(&[u8]) -> E<String>,
    pub from_json: fn(&str) -> E<Vec<u8>>,
    pub from_value: fn(Json) -> E<Vec<u8>>,
    pub default: fn() -> Vec<u8>,
}
fn msg(f: Fail) -> String {
    format!("{f:?}")
}
fn guarded<T>(f: impl FnOnce() -> E<T>) -> E<T> {
    guard(f).unwrap_or_else(|p| Err(format!("PANIC {p}")))
}
macro_rules! apis {
    ($out:ident, $f:expr, $p:expr, $t:path, [$($n:ident),* $(,)?]) => {{
        use $t as t;
        $(
            $out.push(Api {
                fork: $f,
                preset: $p,
                name: stringify!($n),
                recode: |b| guarded(|| Ok(enc(&dec::<t::$n>(b).map_err(msg)?))),
                root: |b| guarded(|| {
                    let v = dec::<t::$n>(b).map_err(msg)?;
                    let r = v.hash_tree_root().map_err(|e| format!("{e:?}"))?;
                    Ok(r.as_ref().try_into().unwrap())
                }),
                to_json: |b| guarded(|| serde_json::to_value(&dec::<t::$n>(b).map_err(msg)?).map_err(|e| e.to_string())),
                to_text: |b| guarded(|| serde_json::to_string(&dec::<t::$n>(b).map_err(msg)?).map_err(|e| e.to_string())),
                from_json: |s| guarded(|| Ok(enc(&serde_json::from_str::<t::$n>(s).map_err(|e| e.to_string())?))),
                from_value: |s| guarded(|| Ok(enc(&serde_json::from_value::<t::$n>(s).map_err(|e| e.to_string())?))),
                default: || enc(&<t::$n as Default>::default()),
            });
        )*
    }};
}
macro_rules! common {
    ($out:ident, $f:expr, $p:expr, $t:path) => {
        apis!($out, $f, $p, $t, [
            Fork, ForkData, Checkpoint, Validator, AttestationData, Eth1Data, DepositMessage, DepositData,
            BeaconBlockHeader, SignedBeaconBlockHeader, ProposerSlashing, Deposit, VoluntaryExit, SignedVoluntaryExit
        ]);
    };
}
macro_rules! phase0_types {
    ($o:ident, $f:expr, $p:expr, $t:path) => {
        apis!($o, $f, $p, $t, [
            IndexedAttestation, AttesterSlashing, Attestation, BeaconState, BeaconBlockBody, BeaconBlock, SignedBeaconBlock,
            AggregateAndProof, SignedAggregateAndProof
        ]);
    };
}
macro_rules! sync_types {
    ($o:ident, $f:expr, $p:expr, $t:path) => {
        apis!($o, $f, $p, $t, [
            SyncAggregate, SyncCommittee, SyncCommitteeContribution, ContributionAndProof, SignedContributionAndProof,
            SyncCommitteeMessage,
            LightClientHeader, LightClientBootstrap, LightClientUpdate, LightClientFinalityUpdate, LightClientOptimisticUpdate
        ]);
    };
}
macro_rules! exec_types {
    ($o:ident, $f:expr, $p:expr, $t:path) => {
        apis!($o, $f, $p, $t, [
            ExecutionPayload, ExecutionPayloadHeader, BlindedBeaconBlockBody, BlindedBeaconBlock, SignedBlindedBeaconBlock
        ]);
    };
}
pub fn all() -> Vec<Api> {
    let mut o: Vec<Api> = vec![];
    macro_rules! both {
        ($m:ident, $f:expr, $k:ident) => {
            $m!(o, $f, Preset::Minimal, $k::minimal);
            $m!(o, $f, Preset::Mainnet, $k::mainnet);
        };
        ($f:expr, $k:ident, $l:tt) => {
            apis!(o, $f, Preset::Minimal, $k::minimal, $l);
            apis!(o, $f, Preset::Mainnet, $k::mainnet, $l);
        };
    }
    both!(common, Phase0, phase0);
    both!(phase0_types, Phase0, phase0);
    both!(Phase0, phase0, [PendingAttestation, HistoricalBatch, HistoricalSummary]);
    apis!(o, Phase0, Preset::Minimal, ethereum_consensus::builder, [ValidatorRegistration, SignedValidatorRegistration]);
    both!(common, Altair, altair);
    both!(phase0_types, Altair, altair);
    both!(sync_types, Altair, altair);
    both!(common, Bellatrix, bellatrix);
    both!(phase0_types, Bellatrix, bellatrix);
    both!(exec_types, Bellatrix, bellatrix);
    both!(common, Capella, capella);
    both!(phase0_types, Capella, capella);
    both!(sync_types, Capella, capella);
    both!(exec_types, Capella, capella);
    both!(Capella, capella, [Withdrawal, BlsToExecutionChange, SignedBlsToExecutionChange]);
    both!(common, Deneb, deneb);
    both!(phase0_types, Deneb, deneb);
    both!(sync_types, Deneb, deneb);
    both!(exec_types, Deneb, deneb);
    both!(Deneb, deneb, [BlobIdentifier, BlobSidecar]);
    both!(Electra, electra_types, [
        BeaconState, SignedBeaconBlock, BeaconBlock, BeaconBlockBody, ExecutionPayload, ExecutionPayloadHeader, Attestation,
        IndexedAttestation
    ]);
    apis!(o, Electra, Preset::Minimal, electra, [
        DepositReceipt, ExecutionLayerWithdrawalRequest, Consolidation, SignedConsolidation, PendingBalanceDeposit,
        PendingPartialWithdrawal, PendingConsolidation
    ]);
    o
}
fn ty(a: &Api) -> &'static Ty {
    let s = schema(a.fork, a.preset);
    match a.name {
        // not a fork specific container
        "HistoricalSummary" => schema(Capella, a.preset).ty("HistoricalSummary"),
        n => s.ty(n),
    }
}
/// one container and a random value of it; big containers are drawn rarely
fn draw<'a>(apis: &'a [Api], i: usize, r: &mut Rng) -> (&'a Api, &'static Ty, Val) {
    let mut a = &apis[i % apis.len()];
    if a.preset == Preset::Mainnet && ["BeaconState", "BlobSidecar", "HistoricalBatch"].contains(&a.name) && !r.chance(1, 4) {
        a = apis.iter().find(|b| b.fork == a.fork && b.name == a.name).unwrap();
    }
    let t = ty(a);
    let scale = match r.below(12) {
        0 => 0,
        1 => 64,
        2..=4 => 8,
        _ => 3,
    };
    let v = if r.chance(1, 20) { t.default() } else { t.rand(r, scale) };
    (a, t, v)
}
fn what(a: &Api) -> String {
    format!("{}/{}", a.fork.name(), a.name)
}
fn floors(run: &mut Run, apis: &[Api]) {
    for f in FORKS {
        let n = apis.iter().filter(|a| a.fork == f).count() as u64;
        run.floor(&format!("values {}", f.name()), n * 10);
    }
}

// ------------------------------------------------------------------------------- C10
/// distorted encodings
fn distort(b: &[u8], r: &mut Rng) -> (Vec<u8>, &'static str) {
    let mut b = b.to_vec();
    let n = b.len();
    match r.below(9) {
        0 => {
            b.truncate(r.idx(n + 1));
            (b, "truncated")
        }
        1 => {
            let k = r.idx(40) + 1;
            b.extend(r.bytes(k));
            (b, "extended")
        }
        2 if n >= 4 => {
            // an offset-like word near the front
            let at = (r.idx(n.min(600) / 4)) * 4;
            let w = match r.below(5) {
                0 => 0,
                1 => u32::MAX,
                2 => n as u32,
                3 => r.below(n as u64 + 8) as u32,
                _ => u32::from_le_bytes(b[at..at + 4].try_into().unwrap()).wrapping_add(*r.pick(&[1, u32::MAX, 4, u32::MAX - 3])),
            };
            b[at..at + 4].copy_from_slice(&w.to_le_bytes());
            (b, "offset")
        }
        3 if n > 0 => {
            let at = r.idx(n);
            b[at] ^= 1 << r.idx(8);
            (b, "bit flip")
        }
        4 if n > 0 => {
            b[n - 1] = *r.pick(&[0, 1, 0x80, 0xff]);
            (b, "last byte")
        }
        5 if n > 8 => {
            let at = r.idx(n);
            let k = r.idx(8) + 1;
            let x = r.bytes(k);
            b.splice(at..at, x);
            (b, "inserted")
        }
        6 if n > 8 => {
            let at = r.idx(n - 4);
            let k = r.idx(4) + 1;
            b.drain(at..at + k);
            (b, "removed")
        }
        7 => {
            let k = r.idx(300);
            (r.bytes(k), "noise")
        }
        _ => (vec![0; r.idx(n + 40)], "zeros"),
    }
}
pub fn ssz(mut run: Run) -> ! {
    run.rule("one value encoded, decoded and encoded again, or one distorted encoding offered; a case is (container, fork, preset, bytes)");
    run.assume("the SSZ library itself is a stand-in (ssz_rs is not installed): what is judged is the repository's container definitions on top of it");
    let apis = all();
    floors(&mut run, &apis);
    for a in &apis {
        let d = (a.default)();
        run.check(d == ty(a).enc(&ty(a).default()), &format!("default {}", what(a)), || {
            json!({"preset": format!("{:?}", a.preset), "default encoding": hexs(&d), "expected": hexs(&ty(a).enc(&ty(a).default()))})
        });
        run.eval(&(a.fork, a.preset as u8, a.name, "default"), true);
    }
    scenarios(&mut run, 40000, |acc, i, r| {
        let (a, t, v) = draw(&apis, i, r);
        let b = t.enc(&v);
        acc.count(&format!("values {}", a.fork.name()), 1);
        let got = (a.recode)(&b);
        acc.eval(&(a.fork, a.preset as u8, a.name, &b), true);
        acc.check(got.as_ref() == Ok(&b), &format!("round trip {}", what(a)), || {
            json!({"preset": format!("{:?}", a.preset), "encoding": hexs(&b[..b.len().min(20000)]),
                "got": got.as_ref().map(|g| hexs(&g[..g.len().min(20000)]))})
        });
        if i < 4 {
            acc.sample(|| json!({"container": what(a), "bytes": b.len(), "json": t.json(&v).to_string().chars().take(300).collect::<String>()}));
        }
        for _ in 0..3 {
            let (d, how) = distort(&b, r);
            let got = (a.recode)(&d);
            let want = t.dec(&d).map(|v| t.enc(&v));
            acc.eval(&(a.fork, a.preset as u8, a.name, &d), true);
            acc.count(if want.is_ok() { "distorted and still valid" } else { "distorted and refused" }, 1);
            let sig = match (&got, &want) {
                (Err(e), _) if e.starts_with("PANIC") => "crash on",
                (Ok(_), Err(_)) => "accepted malformed",
                (Err(_), Ok(_)) => "refused valid",
                (Ok(g), Ok(w)) if g != w => "changed",
                _ => continue,
            };
            acc.violation(
                &format!("{sig} {}", what(a)),
                json!({"preset": format!("{:?}", a.preset), "distortion": how, "bytes": hexs(&d[..d.len().min(20000)]), "got": got.as_ref().map(|_| "accepted"),
                    "expected": want.as_ref().map(|_| "accepted")}),
            );
        }
    });
    run.floor("distorted and still valid", 500);
    run.floor("distorted and refused", 5000);
    run.finish()
}

// ------------------------------------------------------------------------------- C11
pub fn roots(mut run: Run) -> ! {
    run.rule("the hash tree root of one value; a case is (container, fork, preset, value)");
    run.assume("the merkleization library itself is a stand-in (ssz_rs is not installed): what is judged is the repository's container definitions on top of it");
    let apis = all();
    floors(&mut run, &apis);
    scenarios(&mut run, 60000, |acc, i, r| {
        let (a, t, mut v) = draw(&apis, i, r);
        acc.count(&format!("values {}", a.fork.name()), 1);
        for k in 0..2 {
            if k == 1 {
                // a neighbour: one leaf changed
                crate::gen::mutate(t, &mut v, r);
            }
            let b = t.enc(&v);
            let got = (a.root)(&b);
            let want = t.htr(&v);
            acc.eval(&(a.fork, a.preset as u8, a.name, &b), true);
            acc.check(got == Ok(want), &format!("root {}", what(a)), || {
                json!({"preset": format!("{:?}", a.preset), "encoding": hexs(&b[..b.len().min(20000)]), "got": got.as_ref().map(|g| hexs(g)), "expected": hexs(&want)})
            });
        }
        if i < 4 {
            acc.sample(|| json!({"container": what(a), "root": hexs(&t.htr(&v))}));
        }
    });
    run.finish()
}

// ------------------------------------------------------------------------------- C12
/// A random place in a document together with the type there.
fn place<'a>(t: &'a Ty, j: &'a mut Json, r: &mut Rng, stop: u64) -> (&'a Ty, &'a mut Json) {
    if r.below(100) < stop {
        return (t, j);
    }
    match t {
        Ty::C(c) => {
            let f = r.pick(&c.fields);
            place(&f.ty, j.get_mut(f.json).expect("harness: own document lacks a field"), r, stop)
        }
        Ty::V(e, _) | Ty::L(e, _) => {
            let n = j.as_array().map(|a| a.len()).unwrap_or(0);
            if n == 0 {
                return (t, j);
            }
            let i = r.idx(n);
            place(e, &mut j[i], r, stop)
        }
        _ => (t, j),
    }
}
/// Makes the document malformed at one place; says how, or None where nothing malformed was made.
fn spoil(t: &Ty, j: &mut Json, r: &mut Rng) -> Option<String> {
    let pick_text = |r: &mut Rng, l: &[&str]| json!(r.pick(l).to_string());
    match t {
        Ty::C(c) => {
            if r.chance(1, 5) {
                *j = r.pick(&[json!(null), json!("0x00"), json!(7)]).clone();
                return Some("not an object".into());
            }
            let f = r.pick(&c.fields);
            j.as_object_mut().unwrap().remove(f.json);
            Some(format!("without {}", f.json))
        }
        // the texts of 256-bit numbers belong to the SSZ library (a stand-in here)
        Ty::U256 => {
            *j = r.pick(&[json!(null), json!([]), json!({}), json!("abc"), json!("-1")]).clone();
            Some(format!("number {j}"))
        }
        Ty::U8 | Ty::U64 => {
            let mut l = vec!["", "-1", "abc", "1.5", " 1", "0x", "1e3", "٣", "115792089237316195423570985008687907853269984665640564039457584007913129639936"];
            l.push("18446744073709551616");
            if let Ty::U8 = t {
                l.push("256");
            }
            *j = if r.chance(1, 6) { r.pick(&[json!(null), json!(true), json!([]), json!({}), json!(1.5), json!(-1)]).clone() } else { pick_text(r, &l) };
            Some(format!("number {j}"))
        }
        Ty::Bool => {
            *j = r.pick(&[json!("yes"), json!(null), json!(2), json!("")]).clone();
            Some(format!("bool {j}"))
        }
        Ty::BV(n) => {
            let n = *n;
            let s = j.as_str().unwrap().to_string();
            *j = match r.below(6) {
                0 => json!(format!("{s}00")),
                1 if n > 0 => json!(s[..s.len() - 2]),
                2 if n > 0 => json!(s[..s.len() - 1]),
                3 if n > 0 => {
                    let at = 2 + r.idx(s.len() - 2);
                    json!(format!("{}g{}", &s[..at], &s[at + 1..]))
                }
                4 => json!("0x"),
                _ => r.pick(&[json!(null), json!(3), json!([])]).clone(),
            };
            Some(format!("{n} bytes as {}", j.to_string().chars().take(80).collect::<String>()))
        }
        Ty::BL(n) => {
            let s = j.as_str().unwrap().to_string();
            *j = match r.below(4) {
                0 if *n < 4096 => json!(format!("0x{}", "ab".repeat(n + 1))),
                1 => json!(format!("{s}0")),
                2 => json!(format!("{s}zz")),
                _ => r.pick(&[json!(null), json!(3)]).clone(),
            };
            Some(format!("byte list as {}", j.to_string().chars().take(80).collect::<String>()))
        }
        Ty::BitV(n) => {
            let bytes = n.div_ceil(8);
            *j = match r.below(3) {
                0 => json!(format!("0x{}", "00".repeat(bytes + 1))),
                1 => json!(format!("0x{}", "00".repeat(bytes - 1))),
                _ if n % 8 != 0 => json!(format!("0x{}{}", "00".repeat(bytes - 1), "80")),
                _ => json!(null),
            };
            Some(format!("bitvector as {j}"))
        }
        Ty::BitL(n) => {
            *j = match r.below(4) {
                0 => json!("0x"),
                1 => json!("0x00"),
                2 if *n < 100_000 => json!(format!("0x{}02", "ff".repeat(n / 8))),
                _ => json!(null),
            };
            Some(format!("bitlist as {}", j.to_string().chars().take(60).collect::<String>()))
        }
        Ty::V(..) => {
            let a = j.as_array_mut().unwrap();
            if r.chance(1, 2) && !a.is_empty() {
                let x = a[0].clone();
                a.push(x);
                Some("one element too many".into())
            } else {
                a.pop()?;
                Some("one element too few".into())
            }
        }
        Ty::L(e, n) => {
            if *n <= 256 && r.chance(1, 2) {
                let x = e.json(&e.default());
                *j = json!(vec![x; n + 1]);
                Some("over the limit".into())
            } else {
                *j = r.pick(&[json!(null), json!("0x"), json!({})]).clone();
                Some("not a list".into())
            }
        }
    }
}
pub fn json_mapping(mut run: Run) -> ! {
    run.rule("one value rendered to JSON and read back, or one document malformed at one place offered; a case is (container, fork, preset, document)");
    run.assume("the generic list, vector and bitfield mappings belong to the SSZ library, which is a stand-in; the containers, byte strings and numbers are the repository's");
    let apis = all();
    floors(&mut run, &apis);
    scenarios(&mut run, 25000, |acc, i, r| {
        let (a, t, v) = draw(&apis, i, r);
        let b = t.enc(&v);
        let want = t.json(&v);
        acc.count(&format!("values {}", a.fork.name()), 1);
        let got = (a.to_json)(&b);
        acc.eval(&(a.fork, a.preset as u8, a.name, &b), true);
        acc.check(got.as_ref() == Ok(&want), &format!("json {}", what(a)), || {
            let mut d = vec![];
            if let Ok(g) = &got {
                jdiff(g, &want, String::new(), &mut d);
            }
            json!({"preset": format!("{:?}", a.preset), "encoding": hexs(&b[..b.len().min(20000)]), "error": got.as_ref().err(), "differences": d})
        });
        let text = (a.to_text)(&b);
        let back = text.as_ref().ok().and_then(|t| serde_json::from_str::<Json>(t).ok());
        acc.check(back.as_ref() == Some(&want), &format!("json text {}", what(a)), || json!({"encoding": hexs(&b[..b.len().min(20000)])}));
        // from the prescribed document, pretty or compact, with unknown keys, to the same value
        let mut doc = want.clone();
        if r.chance(1, 3) && doc.is_object() {
            doc["some_unknown_key"] = json!("1");
        }
        let text = if r.chance(1, 2) { doc.to_string() } else { serde_json::to_string_pretty(&doc).unwrap() };
        for (n, got) in [("text", (a.from_json)(&text)), ("value", (a.from_value)(doc))] {
            acc.check(got.as_ref() == Ok(&b), &format!("from json {n} {}", what(a)), || {
                json!({"preset": format!("{:?}", a.preset), "document": text.chars().take(20000).collect::<String>(), "expected": hexs(&b[..b.len().min(20000)]),
                    "got": got.as_ref().map(|g| hexs(&g[..g.len().min(20000)]))})
            });
        }
        for _ in 0..3 {
            let mut d = want.clone();
            let (pt, pj) = place(t, &mut d, r, 12);
            let Some(how) = spoil(pt, pj, r) else { continue };
            if d == want {
                continue;
            }
            let text = d.to_string();
            let got = (a.from_json)(&text);
            acc.eval(&(a.fork, a.preset as u8, a.name, &text), true);
            acc.count("malformed documents", 1);
            let bad = match &got {
                Ok(_) => "accepted malformed json",
                Err(e) if e.starts_with("PANIC") => "crash on json",
                _ => continue,
            };
            acc.violation(
                &format!("{bad} {}: {}", what(a), how.split_whitespace().next().unwrap_or("")),
                json!({"preset": format!("{:?}", a.preset), "malformed": how, "document": text.chars().take(20000).collect::<String>(), "got": got.as_ref().map(|g| hexs(&g[..g.len().min(4000)]))}),
            );
        }
        if i < 3 {
            acc.sample(|| json!({"container": what(a), "document": want.to_string().chars().take(300).collect::<String>()}));
        }
    });
    run.floor("malformed documents", 5000);
    run.finish()
}
fn jdiff(a: &Json, b: &Json, path: String, out: &mut Vec<String>) {
    if a == b || out.len() > 8 {
        return;
    }
    match (a, b) {
        (Json::Object(x), Json::Object(y)) => {
            for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))) {
                jdiff(x.get(k).unwrap_or(&Json::Null), y.get(k).unwrap_or(&Json::Null), format!("{path}.{k}"), out);
            }
        }
        (Json::Array(x), Json::Array(y)) if x.len() == y.len() => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                jdiff(p, q, format!("{path}[{i}]"), out);
            }
        }
        _ => out.push(format!("{path}: got {} expected {}", a.to_string().chars().take(80).collect::<String>(), b.to_string().chars().take(80).collect::<String>())),
    }
}
