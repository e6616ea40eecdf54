//! C14: blob inclusion proofs. C41: payload summaries and blinded blocks. C43: registrations with builders.
use crate::{
    cfg::Cfg,
    codec,
    repo::{dec, electra_types, enc, Fail},
    rstate::obj,
    schema::{schema, Fork, Fork::*, Preset},
    stf,
    ty::{self, sha, Val},
};
use ethereum_consensus::{bellatrix, builder, capella, crypto::SecretKey, deneb, electra, signing, ssz::prelude::HashTreeRoot, state_transition::Context};
use vcommon::{guard, hexs, json, scenarios, Rng, Run};

// ------------------------------------------------------------------------------- C14
type Verdict = Result<Result<(), String>, String>;
macro_rules! proof {
    ($t:ident, $body:ty) => {
        |b: &[u8]| -> Verdict {
            let s = match dec::<deneb::$t::BlobSidecar>(b) {
                Ok(s) => s,
                Err(e) => panic!("harness: sidecar refused {e:?}"),
            };
            guard(|| {
                deneb::verify_blob_sidecar_inclusion_proof::<
                    { deneb::$t::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH },
                    { deneb::$t::BYTES_PER_BLOB },
                    $body,
                >(&s)
                .map_err(|e| format!("{e:?}"))
            })
        }
    };
}
fn proof_of(fork: Fork, preset: Preset) -> fn(&[u8]) -> Verdict {
    match (fork, preset) {
        (Deneb, Preset::Minimal) => proof!(minimal, deneb::minimal::BeaconBlockBody),
        (Deneb, Preset::Mainnet) => proof!(mainnet, deneb::mainnet::BeaconBlockBody),
        (Electra, Preset::Minimal) => proof!(minimal, electra_types::minimal::BeaconBlockBody),
        (Electra, Preset::Mainnet) => proof!(mainnet, electra_types::mainnet::BeaconBlockBody),
        _ => unreachable!(),
    }
}
/// what a sidecar claims, judged from the protocol's definition alone
fn included(side: &Val, position: u64, limit: u64, depth: usize) -> bool {
    let index = side.n("index");
    if index >= limit {
        return false;
    }
    let list_depth = ty::depth_for(limit as usize);
    // list element, the list's length, then the body's field
    let sub = index + (position << (list_depth + 1));
    let mut node = sha(&[&side.g("kzg_commitment").bytes()[..32], &ty::pad32(&side.g("kzg_commitment").bytes()[32..])]);
    let nodes = side.g("kzg_commitment_inclusion_proof").seq();
    assert_eq!(nodes.len(), depth);
    for (i, n) in nodes.iter().enumerate() {
        node = if sub >> i & 1 == 1 { sha(&[&n.b32(), &node]) } else { sha(&[&node, &n.b32()]) };
    }
    node == side.g("signed_block_header").g("message").r("body_root")
}
pub fn inclusion(mut run: Run) -> ! {
    run.rule("one sidecar offered to the inclusion check: honest ones for each commitment of a block, and distorted ones; a case is (fork, preset, index, commitment, branch, body root)");
    run.assume("generalized indices are computed by the stand-in for ssz_rs, the path and everything around it by the repository");
    scenarios(&mut run, 3000, |a, i, r| {
        let fork = *r.pick(&[Deneb, Deneb, Electra]);
        let preset = if i % 2 == 0 { Preset::Minimal } else { Preset::Mainnet };
        let sch = schema(fork, preset);
        let bt = sch.ty("BeaconBlockBody").clone();
        let limit = match bt.cont().ty("blob_kzg_commitments") {
            ty::Ty::L(_, n) => *n,
            _ => unreachable!(),
        };
        let position = bt.cont().idx("blob_kzg_commitments") as u64;
        let n = match r.below(8) {
            0 => limit.min(*r.pick(&[limit, 40, 1])),
            1 => 1,
            _ => r.range(1, 7) as usize,
        }
        .min(limit);
        let commitments: Vec<Val> = (0..n).map(|_| if r.chance(1, 30) { Val::Bytes(vec![0; 48]) } else { Val::Bytes(r.bytes(48)) }).collect();
        let mut body = bt.rand(r, 2);
        body.set("blob_kzg_commitments", Val::Seq(commitments.clone()));
        let leaves: Vec<[u8; 32]> = commitments.iter().map(|c| sha(&[&c.bytes()[..32], &ty::pad32(&c.bytes()[32..])])).collect();
        let fields: Vec<[u8; 32]> = bt.cont().fields.iter().map(|f| f.ty.htr(body.g(f.name))).collect();
        let body_root = body.htr();
        let st = schema(Deneb, preset).ty("BlobSidecar").clone();
        let check = proof_of(fork, preset);
        let depth = if preset == Preset::Minimal { 9 } else { 17 };
        let offer = |a: &mut vcommon::Acc, side: &Val, how: &str| {
            let want = included(side, position, limit as u64, depth);
            let got = check(&side.enc());
            a.eval(
                &(fork, preset as u8, side.n("index"), side.g("kzg_commitment").bytes(), side.g("kzg_commitment_inclusion_proof").seq().iter().map(|n| n.b32()).collect::<Vec<_>>(), side.g("signed_block_header").g("message").r("body_root")),
                true,
            );
            a.count(if want { "proofs that hold" } else { "proofs that do not hold" }, 1);
            a.count(how, 1);
            let sig = match (&got, want) {
                (Err(_), _) => "panic",
                (Ok(Ok(())), false) => "accepted a false proof",
                (Ok(Err(_)), true) => "refused a true proof",
                _ => return,
            };
            a.violation(
                &format!("inclusion/{}/{sig}", fork.name()),
                json!({"preset": format!("{preset:?}"), "how": how, "index": side.n("index").to_string(), "commitments in the block": n,
                    "commitment": hexs(side.g("kzg_commitment").bytes()), "body_root": hexs(&side.g("signed_block_header").g("message").r("body_root")),
                    "branch": side.g("kzg_commitment_inclusion_proof").seq().iter().map(|n| hexs(&n.b32())).collect::<Vec<_>>(), "got": format!("{got:?}")}),
            );
        };
        let picks: Vec<usize> = if n <= 4 { (0..n).collect() } else { vec![0, n - 1, r.idx(n)] };
        for k in picks {
            let mut br = ty::branch(leaves.clone(), limit, k);
            br.push(ty::pad32(&(n as u64).to_le_bytes()));
            br.extend(ty::branch(fields.clone(), 16, position as usize));
            assert_eq!(br.len(), depth, "harness: proof depth");
            let mut side = st.default();
            let mut h = st.cont().ty("signed_block_header").rand(r, 2);
            h.gm("message").set("body_root", Val::root(body_root));
            side.set("signed_block_header", h);
            side.set("index", Val::U64(k as u64));
            side.set("kzg_commitment", commitments[k].clone());
            side.set("kzg_commitment_inclusion_proof", Val::Seq(br.iter().map(|n| Val::root(*n)).collect()));
            offer(a, &side, "as published");
            if i < 3 && k == 0 {
                a.sample(|| json!({"fork": fork.name(), "preset": format!("{preset:?}"), "commitments": n, "body_root": hexs(&body_root)}));
            }
            for _ in 0..7 {
                let mut s = side.clone();
                let how = match r.below(13) {
                    0 => {
                        let any = r.below(n as u64);
                        s.set("index", Val::U64(*r.pick(&[k as u64 + 1, (k as u64).wrapping_sub(1), k as u64 ^ 1, any])));
                        "another index"
                    }
                    1 => {
                        let l = limit as u64;
                        s.set("index", Val::U64(*r.pick(&[l + k as u64, l, l * 2 + k as u64, k as u64 + (1 << 32), k as u64 + (1 << 63), u64::MAX, l - 1])));
                        "index outside the list"
                    }
                    2 => {
                        s.set("kzg_commitment", commitments[r.idx(n)].clone());
                        "a commitment of the block"
                    }
                    3 => {
                        let mut b = s.g("kzg_commitment").bytes().to_vec();
                        let at = r.idx(48);
                        b[at] ^= 1 << r.below(8);
                        s.set("kzg_commitment", Val::Bytes(b));
                        "a bit of the commitment"
                    }
                    4 | 5 => {
                        let at = r.idx(depth);
                        let mut b = br[at];
                        b[r.idx(32)] ^= 1 << r.below(8);
                        s.gm("kzg_commitment_inclusion_proof").seq_mut()[at] = Val::root(b);
                        "a bit of the branch"
                    }
                    6 => {
                        let (x, y) = (r.idx(depth), r.idx(depth));
                        s.gm("kzg_commitment_inclusion_proof").seq_mut().swap(x, y);
                        "branch nodes swapped"
                    }
                    7 => {
                        let mut b = body_root;
                        b[r.idx(32)] ^= 1 << r.below(8);
                        s.gm("signed_block_header").gm("message").set("body_root", Val::root(b));
                        "a bit of the body root"
                    }
                    8 => {
                        let keep = s.g("signed_block_header").g("message").r("body_root");
                        let mut h = st.cont().ty("signed_block_header").rand(r, 2);
                        h.gm("message").set("body_root", Val::root(keep));
                        s.set("signed_block_header", h);
                        s.set("kzg_proof", Val::Bytes(r.bytes(48)));
                        "what the proof does not cover"
                    }
                    9 => {
                        // the branch of this commitment placed in another field of the body
                        let other = r.idx(fields.len());
                        let mut f = fields.clone();
                        let root = ty::mixin(ty::merkle(leaves.clone(), limit), n);
                        f[other] = root;
                        let mut b = br.clone();
                        b.truncate(depth - 4);
                        b.extend(ty::branch(f.clone(), 16, other));
                        s.set("kzg_commitment_inclusion_proof", Val::Seq(b.iter().map(|n| Val::root(*n)).collect()));
                        s.gm("signed_block_header").gm("message").set("body_root", Val::root(ty::merkle(f, 16)));
                        "in another field of the body"
                    }
                    10 => {
                        // a consistent tree in which only one of the sides is exchanged
                        let at = r.idx(depth);
                        let sub = k as u64 + (position << (ty::depth_for(limit) + 1));
                        let mut node = leaves[k];
                        for (j, n) in br.iter().enumerate() {
                            let right = (sub >> j & 1 == 1) != (j == at);
                            node = if right { sha(&[n, &node]) } else { sha(&[&node, n]) };
                        }
                        s.gm("signed_block_header").gm("message").set("body_root", Val::root(node));
                        "sides exchanged"
                    }
                    11 => {
                        // a shorter path: the subtree's own root presented as the body's
                        let cut = r.range(1, depth as u64 - 1) as usize;
                        let sub = k as u64 + (position << (ty::depth_for(limit) + 1));
                        let mut node = leaves[k];
                        for (j, n) in br[..cut].iter().enumerate() {
                            node = if sub >> j & 1 == 1 { sha(&[n, &node]) } else { sha(&[&node, n]) };
                        }
                        s.gm("signed_block_header").gm("message").set("body_root", Val::root(node));
                        "a part of the path only"
                    }
                    _ => {
                        s.set("kzg_commitment", Val::Bytes(r.bytes(48)));
                        let root = sha(&[&s.g("kzg_commitment").bytes()[..32], &ty::pad32(&s.g("kzg_commitment").bytes()[32..])]);
                        s.gm("signed_block_header").gm("message").set("body_root", Val::root(root));
                        "the commitment's own root as the body's"
                    }
                };
                offer(a, &s, how);
            }
        }
    });
    run.floor("proofs that hold", 3000);
    run.floor("proofs that do not hold", 10000);
    for n in ["another index", "index outside the list", "sides exchanged", "what the proof does not cover", "in another field of the body", "a part of the path only"] {
        run.floor(n, 300);
    }
    run.finish()
}

// ------------------------------------------------------------------------------- C41
type Summary = fn(&[u8]) -> Result<(Vec<u8>, [u8; 32], [u8; 32]), Fail>;
macro_rules! summary {
    ($m:path, $t:path) => {{
        use $m as m;
        use $t as t;
        |b: &[u8]| {
            let p = dec::<t::ExecutionPayload>(b)?;
            let h = guard(|| m::ExecutionPayloadHeader::try_from(&p)).map_err(Fail::Panic)?.map_err(|e| Fail::Err(format!("{e:?}")))?;
            let root = |x: &dyn Fn() -> Result<[u8; 32], String>| x().map_err(Fail::Err);
            let pr = root(&|| Ok(p.hash_tree_root().map_err(|e| format!("{e:?}"))?.as_ref().try_into().unwrap()))?;
            let hr = root(&|| Ok(h.hash_tree_root().map_err(|e| format!("{e:?}"))?.as_ref().try_into().unwrap()))?;
            Ok((enc::<t::ExecutionPayloadHeader>(&h), pr, hr))
        }
    }};
}
fn summary_of(fork: Fork, preset: Preset) -> Summary {
    match (fork, preset) {
        (Bellatrix, Preset::Minimal) => summary!(bellatrix, bellatrix::minimal),
        (Bellatrix, Preset::Mainnet) => summary!(bellatrix, bellatrix::mainnet),
        (Capella, Preset::Minimal) => summary!(capella, capella::minimal),
        (Capella, Preset::Mainnet) => summary!(capella, capella::mainnet),
        (Deneb, Preset::Minimal) => summary!(deneb, deneb::minimal),
        (Deneb, Preset::Mainnet) => summary!(deneb, deneb::mainnet),
        (Electra, Preset::Minimal) => summary!(electra, electra_types::minimal),
        (Electra, Preset::Mainnet) => summary!(electra, electra_types::mainnet),
        _ => unreachable!(),
    }
}
pub fn summaries(mut run: Run) -> ! {
    run.rule("one payload turned into its header, or one full block compared with its blinded form; a case is (fork, preset, payload)");
    let apis = codec::all();
    let find = |f: Fork, p: Preset, n: &str| apis.iter().find(|x| x.fork == f && x.preset == p && x.name == n);
    scenarios(&mut run, 20000, |a, i, r| {
        let fork = [Bellatrix, Capella, Deneb, Electra][i % 4];
        let preset = if (i / 4) % 3 == 2 { Preset::Mainnet } else { Preset::Minimal };
        let sch = schema(fork, preset);
        let scale = r.range(0, 4) as usize;
        let p = sch.ty("ExecutionPayload").rand(r, scale);
        let want = stf::payload_to_header(sch, &p);
        assert_eq!(p.htr(), want.htr(), "harness: a header's root is its payload's");
        let b = p.enc();
        a.eval(&(fork, preset as u8, &b), true);
        a.count(&format!("payloads {}", fork.name()), 1);
        if p.g("transactions").seq().len() > 1 {
            a.count("payloads with several transactions", 1);
        }
        let detail = |got: serde_json::Value| json!({"fork": fork.name(), "preset": format!("{preset:?}"), "payload": hexs(&b[..b.len().min(20000)]), "expected": hexs(&want.enc()), "got": got});
        match summary_of(fork, preset)(&b) {
            Err(e) => a.violation(&format!("header/{}/failed", fork.name()), detail(json!(format!("{e:?}")))),
            Ok((h, pr, hr)) => {
                if h != want.enc() {
                    let mut d = vec![];
                    if let Ok(v) = sch.ty("ExecutionPayloadHeader").dec(&h) {
                        ty::diff(sch.ty("ExecutionPayloadHeader"), &v, &want, "", &mut d);
                    }
                    a.violation(&format!("header/{}/content", fork.name()), detail(json!({"header": hexs(&h), "differences": d})));
                }
                a.check(pr == p.htr() && hr == want.htr(), &format!("header/{}/roots", fork.name()), || detail(json!({"payload root": hexs(&pr), "header root": hexs(&hr)})));
            }
        }
        // the block and its blinded form
        if i % 5 == 0 && fork != Electra {
            let full = sch.ty("BeaconBlock").rand(r, 1);
            let mut bb = sch.ty("BlindedBeaconBlockBody").default();
            for f in &sch.ty("BlindedBeaconBlockBody").cont().fields {
                let v = if f.name == "execution_payload_header" {
                    stf::payload_to_header(sch, full.g("body").g("execution_payload"))
                } else {
                    full.g("body").g(f.name).clone()
                };
                bb.set(f.name, v);
            }
            let blind = obj(
                sch.ty("BlindedBeaconBlock"),
                vec![full.g("slot").clone(), full.g("proposer_index").clone(), full.g("parent_root").clone(), full.g("state_root").clone(), bb],
            );
            let (fr, br) = (
                (find(fork, preset, "BeaconBlock").unwrap().root)(&full.enc()),
                (find(fork, preset, "BlindedBeaconBlock").unwrap().root)(&blind.enc()),
            );
            a.count("blocks with their blinded form", 1);
            a.eval(&(fork, preset as u8, full.htr()), true);
            a.check(fr.is_ok() && fr == br && fr == Ok(full.htr()), &format!("blinded/{}/root", fork.name()), || {
                json!({"preset": format!("{preset:?}"), "block": hexs(&full.enc()), "blinded": hexs(&blind.enc()), "root": fr.as_ref().map(|x| hexs(x)), "blinded root": br.as_ref().map(|x| hexs(x)), "expected": hexs(&full.htr())})
            });
        }
        if i < 4 {
            a.sample(|| json!({"fork": fork.name(), "header root": hexs(&want.htr()), "transactions": p.g("transactions").seq().len()}));
        }
    });
    for f in [Bellatrix, Capella, Deneb, Electra] {
        run.floor(&format!("payloads {}", f.name()), 2000);
    }
    run.floor("payloads with several transactions", 500);
    run.floor("blocks with their blinded form", 500);
    run.finish()
}

// ------------------------------------------------------------------------------- C43
fn network(r: &mut Rng) -> Context {
    let preset = *r.pick(&[Preset::Minimal, Preset::Mainnet]);
    match r.below(6) {
        0 => Context::for_mainnet(),
        1 => Context::for_minimal(),
        2 => Context::for_sepolia(),
        3 => Context::for_holesky(),
        _ => Cfg::random(preset, *r.pick(&[Phase0, Bellatrix, Deneb]), r).context(),
    }
}
pub fn registrations(mut run: Run) -> ! {
    run.rule("one registration signed for a network's builders and judged under the same or another network, content or key; a case is (genesis version, registration, key)");
    scenarios(&mut run, 6000, |a, i, r| {
        let (ctx, other) = (network(r), network(r));
        let domain = |c: &Context| stf::compute_domain(0, &c.genesis_fork_version, &[0; 32]).map_first4([0, 0, 0, 1]);
        let want = domain(&ctx);
        let got = guard(|| builder::compute_builder_domain(&ctx).map_err(|e| format!("{e:?}")));
        let Ok(Ok(d)) = got else {
            a.violation("builder/domain failed", json!({"got": format!("{got:?}"), "genesis version": hexs(&ctx.genesis_fork_version)}));
            return;
        };
        a.check(d == want, "builder/domain", || json!({"got": hexs(&d), "expected": hexs(&want), "genesis version": hexs(&ctx.genesis_fork_version)}));
        let Ok(Ok(d2)) = guard(|| builder::compute_builder_domain(&other)) else { return };
        let key = loop {
            let mut b: [u8; 32] = r.arr();
            b[0] &= 0x3f;
            if let Ok(k) = SecretKey::try_from(&b[..]) {
                break k;
            }
        };
        let sch = schema(Bellatrix, Preset::Minimal);
        let t = sch.ty("ValidatorRegistration");
        let mut v = t.rand(r, 1);
        v.set("public_key", Val::Bytes(key.public_key().to_vec()));
        let reg = dec::<builder::ValidatorRegistration>(&v.enc()).expect("registration");
        let root = stf::signing_root(&v.htr(), &want);
        a.eval(&(ctx.genesis_fork_version, v.enc()), true);
        let sig = match guard(|| signing::sign_with_domain(&reg, &key, d)) {
            Ok(Ok(s)) => s,
            e => {
                a.violation("builder/signing failed", json!(format!("{e:?}")));
                return;
            }
        };
        a.check(key.sign(&root) == sig, "builder/signature", || json!({"registration": hexs(&v.enc()), "signing root": hexs(&root), "got": hexs(&sig)}));
        let mut judge = |what: &str, m: &Val, dom: [u8; 32], pk: &[u8], want: bool| {
            let pk = dec::<ethereum_consensus::primitives::BlsPublicKey>(pk).expect("key");
            let reg = dec::<builder::ValidatorRegistration>(&m.enc()).expect("registration");
            let ok = guard(|| signing::verify_signed_data(&reg, &sig, &pk, dom).is_ok());
            a.count(what, 1);
            a.check(ok == Ok(want), &format!("builder/{what}"), || json!({"registration": hexs(&m.enc()), "domain": hexs(&dom), "accepted": format!("{ok:?}"), "expected": want}));
        };
        let pk = key.public_key().to_vec();
        judge("genuine", &v, d, &pk, true);
        judge("another network", &v, d2, &pk, ctx.genesis_fork_version == other.genesis_fork_version);
        let mut m = v.clone();
        crate::gen::mutate(t, &mut m, r);
        if m != v {
            judge("altered registration", &m, d, &pk, false);
        }
        if i % 4 == 0 {
            let mut b = [7u8; 32];
            b[0] = 1;
            b[31] = r.u64() as u8;
            if let Ok(k) = SecretKey::try_from(&b[..]) {
                judge("another key", &v, d, &k.public_key().to_vec(), false);
            }
        }
        if i < 3 {
            a.sample(|| json!({"registration": t.json(&v), "domain": hexs(&want)}));
        }
    });
    run.floor("genuine", 3000);
    run.floor("another network", 2000);
    run.floor("altered registration", 2000);
    run.floor("another key", 500);
    run.finish()
}
trait First4 {
    fn map_first4(self, b: [u8; 4]) -> Self;
}
impl First4 for [u8; 32] {
    fn map_first4(mut self, b: [u8; 4]) -> Self {
        self[..4].copy_from_slice(&b);
        self
    }
}
