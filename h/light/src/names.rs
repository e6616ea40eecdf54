//! C04: domains, fork names, signing domains. C38: network names.
use ethereum_consensus::{
    networks::{typical_genesis_time, Network},
    phase0::helpers as h0,
    primitives::DomainType,
    state_transition::Context,
    Fork,
};
use sha2::{Digest, Sha256};
use std::collections::HashSet;
use vcommon::*;

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub const FORKS: [(Fork, &str); 6] = [
    (Fork::Phase0, "phase0"),
    (Fork::Altair, "altair"),
    (Fork::Bellatrix, "bellatrix"),
    (Fork::Capella, "capella"),
    (Fork::Deneb, "deneb"),
    (Fork::Electra, "electra"),
];

pub fn domains(mut r: Run) {
    r.rule("a signing domain computed from (domain type, fork version, chain root), distinct by those; or a \
            signed object checked under matching and non-matching domains");
    let table: [(DomainType, [u8; 4], &str); 14] = [
        (DomainType::BeaconProposer, [0, 0, 0, 0], "beacon proposer"),
        (DomainType::BeaconAttester, [1, 0, 0, 0], "beacon attester"),
        (DomainType::Randao, [2, 0, 0, 0], "randao"),
        (DomainType::Deposit, [3, 0, 0, 0], "deposit"),
        (DomainType::VoluntaryExit, [4, 0, 0, 0], "voluntary exit"),
        (DomainType::SelectionProof, [5, 0, 0, 0], "selection proof"),
        (DomainType::AggregateAndProof, [6, 0, 0, 0], "aggregate and proof"),
        (DomainType::SyncCommittee, [7, 0, 0, 0], "sync committee"),
        (DomainType::SyncCommitteeSelectionProof, [8, 0, 0, 0], "sync committee selection proof"),
        (DomainType::ContributionAndProof, [9, 0, 0, 0], "contribution and proof"),
        (DomainType::BlsToExecutionChange, [10, 0, 0, 0], "bls to execution change"),
        (DomainType::Consolidation, [11, 0, 0, 0], "consolidation"),
        // DOMAIN_APPLICATION_MASK and the builder API's DOMAIN_APPLICATION_BUILDER
        (DomainType::ApplicationMask, [0, 0, 0, 1], "application mask"),
        (DomainType::ApplicationBuilder, [0, 0, 0, 1], "application builder"),
    ];
    for (d, b, name) in &table {
        let got = guard(|| d.as_bytes());
        r.eval(&(name, "bytes"), true);
        r.check(got == Ok(*b), "domain type bytes", || json!({"domain": name, "observed": format!("{got:?}"), "expected": b}));
    }
    let protocol: HashSet<[u8; 4]> = table[..12].iter().map(|t| t.0.as_bytes()).collect();
    r.check(protocol.len() == 12 && !protocol.contains(&DomainType::ApplicationMask.as_bytes()), "domain types collide", || json!(protocol.len()));
    for (f, name) in FORKS {
        r.eval(&name, true);
        let shown = f.to_string();
        let ser = serde_json::to_string(&f).unwrap();
        let de = serde_json::from_str::<Fork>(&format!("\"{name}\"")).map(|x| x.to_string());
        r.check(
            shown == name && ser == format!("\"{name}\"") && matches!(&de, Ok(x) if x == name),
            "fork name",
            || json!({"fork": name, "display": shown, "serialized": ser, "deserialized": format!("{de:?}")}),
        );
        for bad in [name.to_uppercase(), format!("{name} "), format!("{}{}", name[..1].to_uppercase(), &name[1..]), String::new()] {
            let got = serde_json::from_value::<Fork>(json!(bad));
            r.check(got.is_err(), "unknown fork name accepted", || json!(bad));
        }
    }
    let nets = super::consts::contexts();
    let mut rng = r.rng.clone();
    let mut seen: std::collections::HashMap<[u8; 32], (usize, [u8; 4], [u8; 32])> = Default::default();
    let max = if r.quick() { 200_000 } else { u64::MAX };
    while r.time_left() && r.evals() < max {
        let (ti, (d, b, name)) = {
            let i = rng.idx(14);
            (i, &table[i])
        };
        let (_, ctx) = rng.pick(&nets);
        let version: Option<[u8; 4]> = match rng.below(4) {
            0 => None,
            1 => Some(rng.arr()),
            _ => Some(ctx.fork_version_for(FORKS[rng.idx(6)].0)),
        };
        let root: Option<[u8; 32]> = if rng.chance(1, 4) { None } else { Some(rng.arr()) };
        let v = version.unwrap_or(ctx.genesis_fork_version);
        let rt = root.unwrap_or([0; 32]);
        let mut leaf = [0u8; 32];
        leaf[..4].copy_from_slice(&v);
        let fdr = sha(&[&leaf, &rt]);
        let mut want = [0u8; 32];
        want[..4].copy_from_slice(b);
        want[4..].copy_from_slice(&fdr[..28]);
        r.eval(&(name, v, rt), true);
        let node = root.map(|x| x.as_ref().try_into().unwrap());
        let got = guard(|| h0::compute_domain(*d, version, node, ctx).map_err(|e| e.to_string()));
        r.check(got == Ok(Ok(want)), "computed signing domain", || {
            json!({"domain": name, "version": version, "root": root.map(|x| hexs(&x)), "observed": format!("{got:?}"), "expected": hexs(&want)})
        });
        let zero: ethereum_consensus::primitives::Root = rt.as_ref().try_into().unwrap();
        let dig = guard(|| h0::compute_fork_digest(v, zero).map_err(|e| e.to_string()));
        r.check(dig == Ok(Ok([fdr[0], fdr[1], fdr[2], fdr[3]])), "fork digest", || json!({"version": v, "root": hexs(&rt), "observed": format!("{dig:?}")}));
        // separation: distinct inputs give distinct domains (type aliases for application domains aside)
        if let Ok(Ok(dm)) = got {
            let key = (if ti == 13 { 12 } else { ti }, v, rt);
            let prev = seen.entry(dm).or_insert(key);
            r.check(*prev == key, "two different domains collide", || json!({"a": format!("{prev:?}"), "b": format!("{key:?}")}));
        }
        if seen.len() > 200_000 {
            seen.clear();
        }
        if r.evals() % 10_000 == 7 {
            r.sample(json!({"domain": name, "version": v, "computed": hexs(&want)}));
        }
    }
    r.count("distinct domains observed", seen.len() as u64);
    r.finish()
}

pub fn networks(mut r: Run) {
    r.rule("a network name parsed, rendered and resolved to its configuration, distinct by the name");
    let named = [
        (Network::Mainnet, "mainnet"),
        (Network::Sepolia, "sepolia"),
        (Network::Goerli, "goerli"),
        (Network::Holesky, "holesky"),
        (Network::Hoodi, "hoodi"),
    ];
    for (n, s) in &named {
        r.eval(s, true);
        let obs = guard(|| {
            (
                n.to_string(),
                String::from(n.clone()),
                Network::from(s.to_string()) == *n,
                serde_json::to_value(n).unwrap() == json!(s),
                serde_json::from_value::<Network>(json!(s)).ok().as_ref() == Some(n),
                Context::try_from(n.clone()).map(|c| (c.name == *n, c.network() == n)).unwrap_or((false, false)),
            )
        });
        let want = (s.to_string(), s.to_string(), true, true, true, (true, true));
        r.check(obs == Ok(want.clone()), "named network", || json!({"network": s, "observed": format!("{obs:?}"), "expected": format!("{want:?}")}));
        let ctx = Context::try_from(n.clone()).unwrap();
        let t = typical_genesis_time(&ctx);
        r.check(t == ctx.min_genesis_time + ctx.genesis_delay, "typical genesis time", || json!({"network": s, "observed": t}));
    }
    r.check(Network::default() == Network::Mainnet, "default network", || json!("default is not mainnet"));
    // resolved contexts describe the network asked for (chain id is the discriminator)
    for (n, id) in [(1usize, "mainnet"), (11155111, "sepolia"), (5, "goerli"), (17000, "holesky"), (560048, "hoodi")] {
        let c = Context::try_from(Network::from(id.to_string()));
        r.eval(&("context", id), true);
        r.check(c.as_ref().map(|c| c.deposit_chain_id).ok() == Some(n), "network resolves to another chain", || json!(id));
    }
    let mut rng = r.rng.clone();
    let max = if r.quick() { 100_000 } else { u64::MAX };
    while r.time_left() && r.evals() < max {
        // arbitrary directories, including near misses of the known names
        let s: String = match rng.below(5) {
            0 => {
                let mut c: Vec<char> = named[rng.idx(5)].1.chars().collect();
                let i = rng.idx(c.len());
                c[i] = c[i].to_ascii_uppercase();
                c.into_iter().collect()
            }
            1 => format!("{}{}", named[rng.idx(5)].1, rng.pick(&["/", " ", "x", "/config.yaml", "\n"])),
            2 => format!("/tmp/devnet-{}", rng.below(1000)),
            3 => format!("custom ({}/config.yaml)", rng.below(50)),
            _ => {
                let n = rng.below(12);
                (0..n).map(|_| *rng.pick(&['a', 'Z', '0', '/', '.', ' ', 'é', '"', '\\', '('])).collect()
            }
        };
        r.eval(&s, true);
        let n = Network::from(s.clone());
        if !r.check(n == Network::Custom(s.clone()), "unknown name is a custom directory", || json!({"name": s, "observed": format!("{n:?}")})) {
            continue;
        }
        let back = guard(|| {
            let text = serde_json::to_string(&n).map_err(|e| e.to_string())?;
            serde_json::from_str::<Network>(&text).map_err(|e| e.to_string())
        });
        r.check(back == Ok(Ok(n.clone())), "serialized network does not read back", || json!({"name": s, "observed": format!("{back:?}")}));
        let back = guard(|| Network::from(String::from(n.clone())));
        r.check(back == Ok(n.clone()), "network string does not read back", || json!({"name": s, "observed": format!("{back:?}")}));
        let shown = n.to_string();
        r.check(shown.contains(&s) && !named.iter().any(|x| x.1 == shown), "rendered custom network", || json!({"name": s, "observed": shown}));
        if r.evals() % 1000 == 1 {
            // a directory that does not exist is an error, never a panic or another network's configuration
            let dir = format!("/nonexistent-{}", rng.u64());
            let got = guard(|| Context::try_from(Network::Custom(dir.clone())).map(|_| ()).map_err(|e| e.to_string()));
            r.check(matches!(got, Ok(Err(_))), "missing configuration accepted", || json!({"dir": dir}));
        }
    }
    r.sample(json!("mainnet -> Mainnet -> \"mainnet\""));
    r.finish()
}
