//! One generator per client method: random arguments, the call, and what the Beacon API says about
//! its request and its reply. Written from the published Beacon API, not from the client.
use crate::schema::{schema, Fork, Preset};
use beacon_api_client::*;
use serde_json::{json, Value as Json};
use std::{
    future::Future,
    pin::pin,
    task::{Context, Poll, Waker},
};
use vcommon::{hexs, Rng};

pub type Client = minimal::Client;
pub type Out = Result<Json, Error>;

#[derive(Clone, Debug)]
pub enum Wrap {
    /// `{"data": …}` with optional metadata
    Data,
    /// `{"version": fork, "data": …}`
    Versioned(Fork),
    /// `[{"version": fork, "data": …}, …]`
    VersionedList,
    /// `{"dependent_root": …, "data": …}`; the root is part of the result
    Duties([u8; 32]),
    /// as `Duties`, but the client's result does not carry the root
    DutiesNoRoot([u8; 32]),
    /// no body
    Empty,
    /// status only
    Health,
    /// server-sent events, one per element
    Events,
}

pub struct Case {
    pub name: &'static str,
    pub method: &'static str,
    pub path: String,
    pub query: Vec<(String, String)>,
    pub version: Option<Fork>,
    pub body: Option<Json>,
    pub wrap: Wrap,
    /// what the server has to say
    pub data: Json,
    /// what the caller must get (the data, unless the method extracts a part)
    pub want: Json,
    pub call: Box<dyn Fn(&Client) -> Out>,
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    panic!("harness: a request never completed")
}
fn val<T: serde::Serialize>(x: Result<T, Error>) -> Out {
    x.map(|x| serde_json::to_value(x).expect("result has a JSON form"))
}
fn de<T: serde::de::DeserializeOwned>(j: &Json) -> T {
    serde_json::from_value(j.clone()).unwrap_or_else(|e| panic!("argument not accepted: {e}: {}", j.to_string().chars().take(300).collect::<String>()))
}

// ---- random arguments
pub fn num(r: &mut Rng) -> u64 {
    r.edgy()
}
pub fn root(r: &mut Rng) -> [u8; 32] {
    match r.below(12) {
        0 => [0; 32],
        1 => [255; 32],
        _ => r.arr(),
    }
}
pub fn state_id(r: &mut Rng) -> (StateId, String) {
    match r.below(6) {
        0 => (StateId::Head, "head".into()),
        1 => (StateId::Genesis, "genesis".into()),
        2 => (StateId::Finalized, "finalized".into()),
        3 => (StateId::Justified, "justified".into()),
        4 => {
            let n = num(r);
            (StateId::Slot(n), n.to_string())
        }
        _ => {
            let b = root(r);
            (StateId::Root(de(&json!(hexs(&b)))), hexs(&b))
        }
    }
}
pub fn block_id(r: &mut Rng) -> (BlockId, String) {
    match r.below(5) {
        0 => (BlockId::Head, "head".into()),
        1 => (BlockId::Genesis, "genesis".into()),
        2 => (BlockId::Finalized, "finalized".into()),
        3 => {
            let n = num(r);
            (BlockId::Slot(n), n.to_string())
        }
        _ => {
            let b = root(r);
            (BlockId::Root(de(&json!(hexs(&b)))), hexs(&b))
        }
    }
}
#[derive(Clone)]
pub enum Vid {
    Key(Vec<u8>),
    Index(usize),
}
impl Vid {
    pub fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            Vid::Key(r.bytes(48))
        } else {
            Vid::Index(num(r) as usize)
        }
    }
    pub fn text(&self) -> String {
        match self {
            Vid::Key(b) => hexs(b),
            Vid::Index(i) => i.to_string(),
        }
    }
    pub fn make(&self) -> PublicKeyOrIndex {
        match self {
            Vid::Key(b) if b[0] & 1 == 0 => PublicKeyOrIndex::PublicKey(de(&json!(hexs(b)))),
            Vid::Key(b) => PublicKeyOrIndex::from(de::<ethereum_consensus::primitives::BlsPublicKey>(&json!(hexs(b)))),
            Vid::Index(i) => PublicKeyOrIndex::from(*i),
        }
    }
}
pub const STATUS: [(ValidatorStatus, &str); 13] = [
    (ValidatorStatus::PendingInitialized, "pending_initialized"),
    (ValidatorStatus::PendingQueued, "pending_queued"),
    (ValidatorStatus::ActiveOngoing, "active_ongoing"),
    (ValidatorStatus::ActiveExiting, "active_exiting"),
    (ValidatorStatus::ActiveSlashed, "active_slashed"),
    (ValidatorStatus::ExitedUnslashed, "exited_unslashed"),
    (ValidatorStatus::ExitedSlashed, "exited_slashed"),
    (ValidatorStatus::WithdrawalPossible, "withdrawal_possible"),
    (ValidatorStatus::WithdrawalDone, "withdrawal_done"),
    (ValidatorStatus::Active, "active"),
    (ValidatorStatus::Pending, "pending"),
    (ValidatorStatus::Exited, "exited"),
    (ValidatorStatus::Withdrawal, "withdrawal"),
];
pub const PEER_STATES: [&str; 4] = ["disconnected", "connecting", "connected", "disconnecting"];
pub const DIRECTIONS: [&str; 2] = ["inbound", "outbound"];
fn some<T>(r: &mut Rng, max: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = match r.below(4) {
        0 => 0,
        1 => 1,
        _ => r.idx(max + 1),
    };
    (0..n).map(|_| f(r)).collect()
}
/// as `some`, now and then far more of them, now and then with one repeated
fn many<T: Clone>(r: &mut Rng, max: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let mut v = some(r, max, &mut f);
    if r.chance(1, 16) {
        let n = r.range(max as u64, 400);
        v = (0..n).map(|_| f(r)).collect();
    }
    if !v.is_empty() && r.chance(1, 5) {
        let (x, at) = (v[r.idx(v.len())].clone(), r.idx(v.len() + 1));
        v.insert(at, x);
    }
    v
}
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(1, 2) {
        Some(f(r))
    } else {
        None
    }
}
pub fn cont(r: &mut Rng, fork: Fork, name: &str) -> Json {
    let t = schema(fork, Preset::Minimal).ty(name);
    t.json(&t.rand(r, 2))
}
fn conts(r: &mut Rng, fork: Fork, name: &str) -> Json {
    let t = schema(fork, Preset::Minimal).ty(name);
    let max = if r.chance(1, 12) { 40 } else { 3 };
    some(r, max, |r| t.json(&t.rand(r, 2))).into()
}
pub fn text(r: &mut Rng) -> String {
    const WORDS: [&str; 12] =
        ["node", "", " ", "/v1.2.3", "\"quoted\"", "é漢字", "\\", "\n", "{}", "null", "Lighthouse", "0x00"];
    (0..r.idx(6)).map(|_| *r.pick(&WORDS)).collect()
}
fn peer_id(r: &mut Rng) -> String {
    // a multihash: identity of at most 42 bytes, or sha2-256
    let mut b = if r.chance(1, 2) {
        let n = 36 + r.idx(7);
        vec![0, n as u8]
    } else {
        vec![0x12, 32]
    };
    let n = b[1] as usize;
    b.extend(r.bytes(n));
    base58(&b)
}
/// base58 (bitcoin alphabet), independent of the stand-in
pub fn base58(b: &[u8]) -> String {
    const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut digits: Vec<u8> = vec![];
    for x in b {
        let mut c = *x as u32;
        for d in digits.iter_mut() {
            c += (*d as u32) << 8;
            *d = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            digits.push((c % 58) as u8);
            c /= 58;
        }
    }
    let mut s = "1".repeat(zeros);
    s.extend(digits.iter().rev().map(|d| A[*d as usize] as char));
    s
}
fn multiaddr(r: &mut Rng) -> String {
    format!("/ip4/{}.{}.{}.{}/tcp/{}", r.below(256), r.below(256), r.below(256), r.below(256), r.below(65536))
}
fn enr(r: &mut Rng) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let n = 40 + r.idx(80);
    format!("enr:{}", (0..n).map(|_| A[r.idx(64)] as char).collect::<String>())
}
fn peer(r: &mut Rng) -> Json {
    json!({"peer_id": peer_id(r), "enr": enr(r), "last_seen_p2p_address": multiaddr(r),
           "state": *r.pick(&PEER_STATES), "direction": *r.pick(&DIRECTIONS)})
}
fn s(n: u64) -> String {
    n.to_string()
}
fn indices(r: &mut Rng) -> Vec<usize> {
    many(r, 6, |r| num(r) as usize)
}
fn strs(v: &[usize]) -> Json {
    v.iter().map(|x| json!(x.to_string())).collect()
}
fn summary(r: &mut Rng) -> Json {
    json!({"index": s(num(r)), "balance": s(num(r)), "status": r.pick(&STATUS).1, "validator": cont(r, Fork::Phase0, "Validator")})
}
fn header_summary(r: &mut Rng) -> Json {
    json!({"root": hexs(&root(r)), "canonical": r.chance(1, 2), "header": cont(r, Fork::Phase0, "SignedBeaconBlockHeader")})
}
const BLOCKS: [Fork; 5] = [Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb];
const BLINDED: [Fork; 3] = [Fork::Bellatrix, Fork::Capella, Fork::Deneb];
fn version(f: Fork) -> ethereum_consensus::Fork {
    use ethereum_consensus::Fork as F;
    match f {
        Fork::Phase0 => F::Phase0,
        Fork::Altair => F::Altair,
        Fork::Bellatrix => F::Bellatrix,
        Fork::Capella => F::Capella,
        Fork::Deneb => F::Deneb,
        Fork::Electra => F::Electra,
    }
}
fn broadcast(r: &mut Rng) -> Option<&'static str> {
    match r.below(4) {
        0 => None,
        1 => Some("gossip"),
        2 => Some("consensus"),
        _ => Some("consensus_and_equivocation"),
    }
}
fn broadcast_arg(b: Option<&str>) -> Option<BroadcastValidation> {
    b.map(|b| match b {
        "gossip" => BroadcastValidation::Gossip,
        "consensus" => BroadcastValidation::Consensus,
        _ => BroadcastValidation::ConsensusAndEquivocation,
    })
}

fn get(name: &'static str, path: impl Into<String>, data: Json, call: impl Fn(&Client) -> Out + 'static) -> Case {
    Case {
        name,
        method: "GET",
        path: path.into(),
        query: vec![],
        version: None,
        body: None,
        wrap: Wrap::Data,
        want: data.clone(),
        data,
        call: Box::new(call),
    }
}
fn post(name: &'static str, path: impl Into<String>, body: Json, call: impl Fn(&Client) -> Out + 'static) -> Case {
    Case {
        name,
        method: "POST",
        path: path.into(),
        query: vec![],
        version: None,
        body: Some(body),
        wrap: Wrap::Empty,
        want: Json::Null,
        data: Json::Null,
        call: Box::new(call),
    }
}
impl Case {
    fn q(mut self, k: &str, v: Option<String>) -> Self {
        if let Some(v) = v {
            self.query.push((k.into(), v));
        }
        self
    }
    fn wrap(mut self, w: Wrap) -> Self {
        self.wrap = w;
        self
    }
    fn want(mut self, w: Json) -> Self {
        self.want = w;
        self
    }
    fn version(mut self, v: Fork) -> Self {
        self.version = Some(v);
        self
    }
}
fn joined(v: &[String]) -> Option<String> {
    if v.is_empty() {
        None
    } else {
        Some(v.join(","))
    }
}

pub type Gen = fn(&mut Rng) -> Case;
macro_rules! gens { ($($n:ident)*) => { pub const GENS: &[(&str, Gen)] = &[$((stringify!($n), $n as Gen)),*]; } }
gens! {
    genesis state_root fork finality validators validator balances all_committees committees sync_committees randao
    header_head header_slot header_parent header
    post_blinded post_blinded_v2 post_block post_block_v2
    block block_root block_attestations blob_sidecars deposit_snapshot blinded_block
    lc_bootstrap lc_updates lc_finality lc_optimistic
    pool_attestations post_attestations pool_attester_slashings post_attester_slashing
    pool_proposer_slashings post_proposer_slashing post_sync_messages
    pool_exits post_exit pool_changes post_changes
    withdrawals fork_schedule spec deposit_contract state heads events
    identity peers peer_of peer_summary node_version syncing health
    attester_duties proposer_duties sync_duties block_proposal blinded_proposal attestation_data aggregate
    post_aggregates subscribe_attestations subscribe_sync contribution post_contributions
    prepare register liveness
}

fn genesis(r: &mut Rng) -> Case {
    let d = json!({"genesis_time": s(num(r)), "genesis_validators_root": hexs(&root(r)), "genesis_fork_version": hexs(&r.bytes(4))});
    get("get_genesis_details", "eth/v1/beacon/genesis", d, |c| val(block_on(c.get_genesis_details())))
}
fn state_root(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let x = json!(hexs(&root(r)));
    get("get_state_root", format!("eth/v1/beacon/states/{t}/root"), json!({"root": x}), move |c| val(block_on(c.get_state_root(id.clone()))))
        .want(x)
}
fn fork(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    get("get_fork", format!("eth/v1/beacon/states/{t}/fork"), cont(r, Fork::Phase0, "Fork"), move |c| val(block_on(c.get_fork(id.clone()))))
}
fn finality(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let mut cp = || cont(r, Fork::Phase0, "Checkpoint");
    let d = json!({"previous_justified": cp(), "current_justified": cp(), "finalized": cp()});
    get("get_finality_checkpoints", format!("eth/v1/beacon/states/{t}/finality_checkpoints"), d, move |c| {
        val(block_on(c.get_finality_checkpoints(id.clone())))
    })
}
fn validators(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let vids = many(r, 4, Vid::gen);
    let sts = many(r, 4, |r| *r.pick(&STATUS));
    let qi = joined(&vids.iter().map(Vid::text).collect::<Vec<_>>());
    let qs = joined(&sts.iter().map(|s| s.1.to_string()).collect::<Vec<_>>());
    let d = many(r, 3, summary).into();
    get("get_validators", format!("eth/v1/beacon/states/{t}/validators"), d, move |c| {
        let ids: Vec<_> = vids.iter().map(Vid::make).collect();
        let st: Vec<_> = sts.iter().map(|s| s.0).collect();
        val(block_on(c.get_validators(id.clone(), &ids, &st)))
    })
    .q("id", qi)
    .q("status", qs)
}
fn validator(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let v = Vid::gen(r);
    get("get_validator", format!("eth/v1/beacon/states/{t}/validators/{}", v.text()), summary(r), move |c| {
        val(block_on(c.get_validator(id.clone(), v.make())))
    })
}
fn balances(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let vids = many(r, 4, Vid::gen);
    let q = joined(&vids.iter().map(Vid::text).collect::<Vec<_>>());
    let d = many(r, 4, |r| json!({"index": s(num(r)), "balance": s(num(r))})).into();
    get("get_balances", format!("eth/v1/beacon/states/{t}/validator_balances"), d, move |c| {
        let ids: Vec<_> = vids.iter().map(Vid::make).collect();
        val(block_on(c.get_balances(id.clone(), &ids)))
    })
    .q("id", q)
}
fn committee_list(r: &mut Rng) -> Json {
    many(r, 3, |r| json!({"index": s(num(r)), "slot": s(num(r)), "validators": strs(&indices(r))})).into()
}
fn all_committees(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    get("get_all_committees", format!("eth/v1/beacon/states/{t}/committees"), committee_list(r), move |c| {
        val(block_on(c.get_all_committees(id.clone())))
    })
}
fn committees(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let (e, i, sl) = (opt(r, num), opt(r, num), opt(r, num));
    get("get_committees", format!("eth/v1/beacon/states/{t}/committees"), committee_list(r), move |c| {
        let f = CommitteeFilter { epoch: e, index: i.map(|i| i as usize), slot: sl };
        val(block_on(c.get_committees(id.clone(), f)))
    })
    .q("epoch", e.map(s))
    .q("index", i.map(s))
    .q("slot", sl.map(s))
}
fn sync_committees(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let e = opt(r, num);
    let d = json!({"validators": strs(&indices(r)), "validator_aggregates": many(r, 4, |r| strs(&indices(r)))});
    get("get_sync_committees", format!("eth/v1/beacon/states/{t}/sync_committees"), d, move |c| {
        val(block_on(c.get_sync_committees(id.clone(), e)))
    })
    .q("epoch", e.map(s))
}
fn randao(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let e = opt(r, num);
    let x = json!(hexs(&root(r)));
    // the Beacon API answers {"data": {"randao": …}}
    get("get_randao", format!("eth/v1/beacon/states/{t}/randao"), json!({"randao": x}), move |c| {
        val(block_on(c.get_randao(id.clone(), e)))
    })
    .want(x)
    .q("epoch", e.map(s))
}
fn header_list(r: &mut Rng) -> (Json, Json) {
    let h = header_summary(r);
    (json!([h]), h)
}
fn header_head(r: &mut Rng) -> Case {
    let (d, w) = header_list(r);
    get("get_beacon_header_at_head", "eth/v1/beacon/headers", d, |c| val(block_on(c.get_beacon_header_at_head()))).want(w)
}
fn header_slot(r: &mut Rng) -> Case {
    let n = num(r);
    let (d, w) = header_list(r);
    get("get_beacon_header_for_slot", "eth/v1/beacon/headers", d, move |c| val(block_on(c.get_beacon_header_for_slot(n))))
        .want(w)
        .q("slot", Some(s(n)))
}
fn header_parent(r: &mut Rng) -> Case {
    let p = root(r);
    let (d, w) = header_list(r);
    get("get_beacon_header_for_parent_root", "eth/v1/beacon/headers", d, move |c| {
        val(block_on(c.get_beacon_header_for_parent_root(de(&json!(hexs(&p))))))
    })
    .want(w)
    .q("parent_root", Some(hexs(&p)))
}
fn header(r: &mut Rng) -> Case {
    let (id, t) = block_id(r);
    get("get_beacon_header", format!("eth/v1/beacon/headers/{t}"), header_summary(r), move |c| {
        val(block_on(c.get_beacon_header(id.clone())))
    })
}
fn post_blinded(r: &mut Rng) -> Case {
    let f = *r.pick(&BLINDED);
    let b = cont(r, f, "SignedBlindedBeaconBlock");
    let a = b.clone();
    post("post_signed_blinded_beacon_block", "eth/v1/beacon/blinded_blocks", b, move |c| {
        val(block_on(c.post_signed_blinded_beacon_block(&de(&a))))
    })
}
fn post_blinded_v2(r: &mut Rng) -> Case {
    let f = *r.pick(&BLINDED);
    let b = cont(r, f, "SignedBlindedBeaconBlock");
    let (a, bv) = (b.clone(), broadcast(r));
    post("post_signed_blinded_beacon_block_v2", "eth/v2/beacon/blinded_blocks", b, move |c| {
        val(block_on(c.post_signed_blinded_beacon_block_v2(&de(&a), version(f), broadcast_arg(bv))))
    })
    .version(f)
    .q("broadcast_validation", bv.map(String::from))
}
fn post_block(r: &mut Rng) -> Case {
    let f = *r.pick(&BLOCKS);
    let b = cont(r, f, "SignedBeaconBlock");
    let a = b.clone();
    post("post_signed_beacon_block", "eth/v1/beacon/blocks", b, move |c| val(block_on(c.post_signed_beacon_block(&de(&a)))))
}
fn post_block_v2(r: &mut Rng) -> Case {
    let b = cont(r, Fork::Deneb, "SignedBeaconBlock");
    let proofs: Vec<Json> = some(r, 2, |r| json!(hexs(&r.bytes(48))));
    let blobs: Vec<Json> = if r.chance(1, 8) { vec![json!(hexs(&r.bytes(131072)))] } else { vec![] };
    let (a, p, bl, bv) = (b.clone(), json!(proofs), json!(blobs), broadcast(r));
    post(
        "post_signed_beacon_block_v2",
        "eth/v2/beacon/blocks",
        json!({"signed_block": b, "kzg_proofs": proofs, "blobs": blobs}),
        move |c| {
            let block = de(&a);
            let proofs: Vec<_> = de(&p);
            let blobs: Vec<_> = de(&bl);
            let req = SubmitSignedBeaconBlock { signed_block: &block, kzg_proofs: Some(&proofs), blobs: Some(&blobs) };
            val(block_on(c.post_signed_beacon_block_v2(req, version(Fork::Deneb), broadcast_arg(bv))))
        },
    )
    .version(Fork::Deneb)
    .q("broadcast_validation", bv.map(String::from))
}
fn block(r: &mut Rng) -> Case {
    let (id, t) = block_id(r);
    let f = *r.pick(&BLOCKS);
    get("get_beacon_block", format!("eth/v2/beacon/blocks/{t}"), cont(r, f, "SignedBeaconBlock"), move |c| {
        val(block_on(c.get_beacon_block(id.clone())))
    })
    .wrap(Wrap::Versioned(f))
}
fn block_root(r: &mut Rng) -> Case {
    let (id, t) = block_id(r);
    let x = json!(hexs(&root(r)));
    get("get_beacon_block_root", format!("eth/v1/beacon/blocks/{t}/root"), json!({"root": x}), move |c| {
        val(block_on(c.get_beacon_block_root(id.clone())))
    })
    .want(x)
}
fn block_attestations(r: &mut Rng) -> Case {
    let (id, t) = block_id(r);
    get("get_attestations_from_beacon_block", format!("eth/v1/beacon/blocks/{t}/attestations"), conts(r, Fork::Phase0, "Attestation"), move |c| {
        val(block_on(c.get_attestations_from_beacon_block(id.clone())))
    })
}
fn blob_sidecars(r: &mut Rng) -> Case {
    let (id, t) = block_id(r);
    let ix = indices(r);
    let d: Json = if r.chance(1, 6) { json!([cont(r, Fork::Deneb, "BlobSidecar")]) } else { json!([]) };
    let q = joined(&ix.iter().map(|i| i.to_string()).collect::<Vec<_>>());
    get("get_blob_sidecars", format!("eth/v1/beacon/blob_sidecars/{t}"), d, move |c| {
        let ix: Vec<_> = ix.iter().map(|i| *i as _).collect();
        val(block_on(c.get_blob_sidecars(id.clone(), &ix)))
    })
    .q("indices", q)
}
fn deposit_snapshot(r: &mut Rng) -> Case {
    let d = json!({"finalized": many(r, 4, |r| hexs(&root(r))), "deposit_root": hexs(&root(r)), "deposit_count": s(num(r)),
                   "execution_block_hash": hexs(&root(r)), "execution_block_height": s(num(r))});
    get("get_deposit_snapshot", "eth/v1/beacon/deposit_snapshot", d, |c| val(block_on(c.get_deposit_snapshot())))
}
fn blinded_block(r: &mut Rng) -> Case {
    let (id, t) = block_id(r);
    let f = *r.pick(&BLINDED);
    get("get_blinded_block", format!("eth/v1/beacon/blinded_blocks/{t}"), cont(r, f, "SignedBlindedBeaconBlock"), move |c| {
        val(block_on(c.get_blinded_block(id.clone())))
    })
    .wrap(Wrap::Versioned(f))
}
fn lc_bootstrap(r: &mut Rng) -> Case {
    let b = root(r);
    get("get_light_client_bootstrap", format!("eth/v1/beacon/light_client/bootstrap/{}", hexs(&b)), cont(r, Fork::Altair, "LightClientBootstrap"), move |c| {
        val(block_on(c.get_light_client_bootstrap(de(&json!(hexs(&b))))))
    })
    .wrap(Wrap::Versioned(Fork::Altair))
}
fn lc_updates(r: &mut Rng) -> Case {
    let (a, b) = (num(r), num(r));
    get("get_light_client_updates", "eth/v1/beacon/light_client/updates", conts(r, Fork::Altair, "LightClientUpdate"), move |c| {
        val(block_on(c.get_light_client_updates(a, b)))
    })
    .wrap(Wrap::VersionedList)
    .q("start_period", Some(s(a)))
    .q("count", Some(s(b)))
}
fn lc_finality(r: &mut Rng) -> Case {
    get("get_light_client_finality_update", "eth/v1/beacon/light_client/finality_update", cont(r, Fork::Altair, "LightClientFinalityUpdate"), |c| {
        val(block_on(c.get_light_client_finality_update()))
    })
    .wrap(Wrap::Versioned(Fork::Altair))
}
fn lc_optimistic(r: &mut Rng) -> Case {
    get("get_light_client_optimistic_update", "eth/v1/beacon/light_client/optimistic_update", cont(r, Fork::Altair, "LightClientOptimisticUpdate"), |c| {
        val(block_on(c.get_light_client_optimistic_update()))
    })
    .wrap(Wrap::Versioned(Fork::Altair))
}
fn pool_attestations(r: &mut Rng) -> Case {
    let (a, b) = (opt(r, num), opt(r, num));
    get("get_attestations_from_pool", "eth/v1/beacon/pool/attestations", conts(r, Fork::Phase0, "Attestation"), move |c| {
        val(block_on(c.get_attestations_from_pool(a, b.map(|b| b as usize))))
    })
    .q("slot", a.map(s))
    .q("committee_index", b.map(s))
}
fn post_attestations(r: &mut Rng) -> Case {
    let b = conts(r, Fork::Phase0, "Attestation");
    let a = b.clone();
    post("post_attestations", "eth/v1/beacon/pool/attestations", b, move |c| val(block_on(c.post_attestations(&de::<Vec<_>>(&a)))))
}
fn pool_attester_slashings(r: &mut Rng) -> Case {
    get("get_attester_slashings_from_pool", "eth/v1/beacon/pool/attester_slashings", conts(r, Fork::Phase0, "AttesterSlashing"), |c| {
        val(block_on(c.get_attester_slashings_from_pool()))
    })
}
fn post_attester_slashing(r: &mut Rng) -> Case {
    let b = cont(r, Fork::Phase0, "AttesterSlashing");
    let a = b.clone();
    post("post_attester_slashing", "eth/v1/beacon/pool/attester_slashings", b, move |c| val(block_on(c.post_attester_slashing(&de(&a)))))
}
fn pool_proposer_slashings(r: &mut Rng) -> Case {
    get("get_proposer_slashings_from_pool", "eth/v1/beacon/pool/proposer_slashings", conts(r, Fork::Phase0, "ProposerSlashing"), |c| {
        val(block_on(c.get_proposer_slashings_from_pool()))
    })
}
fn post_proposer_slashing(r: &mut Rng) -> Case {
    let b = cont(r, Fork::Phase0, "ProposerSlashing");
    let a = b.clone();
    post("post_proposer_slashing", "eth/v1/beacon/pool/proposer_slashings", b, move |c| val(block_on(c.post_proposer_slashing(&de(&a)))))
}
fn post_sync_messages(r: &mut Rng) -> Case {
    let b = conts(r, Fork::Altair, "SyncCommitteeMessage");
    let a = b.clone();
    post("post_sync_committee_messages", "eth/v1/beacon/pool/sync_committees", b, move |c| {
        val(block_on(c.post_sync_committee_messages(&de::<Vec<_>>(&a))))
    })
}
fn pool_exits(r: &mut Rng) -> Case {
    get("get_voluntary_exits_from_pool", "eth/v1/beacon/pool/voluntary_exits", conts(r, Fork::Phase0, "SignedVoluntaryExit"), |c| {
        val(block_on(c.get_voluntary_exits_from_pool()))
    })
}
fn post_exit(r: &mut Rng) -> Case {
    let b = cont(r, Fork::Phase0, "SignedVoluntaryExit");
    let a = b.clone();
    post("post_signed_voluntary_exit", "eth/v1/beacon/pool/voluntary_exits", b, move |c| val(block_on(c.post_signed_voluntary_exit(&de(&a)))))
}
fn pool_changes(r: &mut Rng) -> Case {
    get("get_bls_to_execution_changes", "eth/v1/beacon/pool/bls_to_execution_changes", conts(r, Fork::Capella, "SignedBlsToExecutionChange"), |c| {
        val(block_on(c.get_bls_to_execution_changes()))
    })
}
fn post_changes(r: &mut Rng) -> Case {
    let b = conts(r, Fork::Capella, "SignedBlsToExecutionChange");
    let a = b.clone();
    post("post_bls_to_execution_changes", "eth/v1/beacon/pool/bls_to_execution_changes", b, move |c| {
        val(block_on(c.post_bls_to_execution_changes(&de::<Vec<_>>(&a))))
    })
}
fn withdrawals(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let n = opt(r, num);
    get("get_expected_withdrawals", format!("eth/v1/builder/states/{t}/expected_withdrawals"), conts(r, Fork::Capella, "Withdrawal"), move |c| {
        val(block_on(c.get_expected_withdrawals(id.clone(), n)))
    })
    .q("proposal_slot", n.map(s))
}
fn fork_schedule(r: &mut Rng) -> Case {
    get("get_fork_schedule", "eth/v1/config/fork_schedule", conts(r, Fork::Phase0, "Fork"), |c| val(block_on(c.get_fork_schedule())))
}
fn spec(r: &mut Rng) -> Case {
    let m: serde_json::Map<String, Json> = many(r, 6, |r| (format!("KEY_{}", r.below(1000)), json!(text(r)))).into_iter().collect();
    get("get_spec", "eth/v1/config/spec", m.into(), |c| val(block_on(c.get_spec())))
}
fn deposit_contract(r: &mut Rng) -> Case {
    let d = json!({"chain_id": s(num(r)), "address": hexs(&r.bytes(20))});
    get("get_deposit_contract_address", "eth/v1/config/deposit_contract", d, |c| val(block_on(c.get_deposit_contract_address())))
}
fn state(r: &mut Rng) -> Case {
    let (id, t) = state_id(r);
    let f = *r.pick(&BLOCKS);
    get("get_state", format!("eth/v2/debug/beacon/states/{t}"), cont(r, f, "BeaconState"), move |c| val(block_on(c.get_state(id.clone()))))
        .wrap(Wrap::Versioned(f))
}
fn heads(r: &mut Rng) -> Case {
    let d = many(r, 4, |r| {
        let mut h = json!({"slot": s(num(r)), "root": hexs(&root(r))});
        if r.chance(2, 3) {
            h["execution_optimistic"] = json!(r.chance(1, 2));
        }
        h
    })
    .into();
    get("get_heads", "eth/v2/debug/beacon/heads", d, |c| val(block_on(c.get_heads())))
}
fn events(r: &mut Rng) -> Case {
    let d = many(r, 3, |r| {
        let f = *r.pick(&[Fork::Bellatrix, Fork::Capella, Fork::Deneb]);
        let mut a = json!({"timestamp": s(num(r)), "prev_randao": hexs(&root(r)), "suggested_fee_recipient": hexs(&r.bytes(20))});
        if f >= Fork::Capella {
            a["withdrawals"] = conts(r, Fork::Capella, "Withdrawal");
        }
        if f >= Fork::Deneb {
            a["parent_beacon_block_root"] = json!(hexs(&root(r)));
        }
        json!({"version": f.name(), "data": {"proposer_index": s(num(r)), "proposal_slot": s(num(r)), "parent_block_number": s(num(r)),
            "parent_block_root": hexs(&root(r)), "parent_block_hash": hexs(&root(r)), "payload_attributes": a}})
    })
    .into();
    get("get_events", "eth/v1/events", d, |c| {
        let stream = block_on(c.get_events::<PayloadAttributesTopic>())?;
        let mut out = vec![];
        for e in stream {
            match e {
                Ok(e) => out.push(serde_json::to_value(e).expect("event has a JSON form")),
                Err(e) => return Err(Error::MissingExpectedData(e)),
            }
        }
        Ok(out.into())
    })
    .wrap(Wrap::Events)
    .q("topics", Some("payload_attributes".into()))
}
fn identity(r: &mut Rng) -> Case {
    let d = json!({"peer_id": peer_id(r), "enr": enr(r), "p2p_addresses": some(r, 3, multiaddr), "discovery_addresses": some(r, 3, multiaddr),
                   "metadata": cont(r, Fork::Altair, "MetaData")});
    get("get_node_identity", "eth/v1/node/identity", d, |c| val(block_on(c.get_node_identity())))
}
fn peer_state(s: &str) -> PeerState {
    match s {
        "disconnected" => PeerState::Disconnected,
        "connecting" => PeerState::Connecting,
        "connected" => PeerState::Connected,
        _ => PeerState::Disconnecting,
    }
}
fn direction(s: &str) -> ConnectionOrientation {
    match s {
        "inbound" => ConnectionOrientation::Inbound,
        _ => ConnectionOrientation::Outbound,
    }
}
fn peers(r: &mut Rng) -> Case {
    let a = many(r, 3, |r| *r.pick(&PEER_STATES));
    let b = many(r, 2, |r| *r.pick(&DIRECTIONS));
    let (qa, qb) = (joined(&a.iter().map(|x| x.to_string()).collect::<Vec<_>>()), joined(&b.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
    let d = many(r, 3, peer).into();
    get("get_node_peers", "eth/v1/node/peers", d, move |c| {
        let st: Vec<_> = a.iter().map(|x| peer_state(x)).collect();
        let di: Vec<_> = b.iter().map(|x| direction(x)).collect();
        val(block_on(c.get_node_peers(&st, &di)))
    })
    .q("state", qa)
    .q("direction", qb)
}
fn peer_of(r: &mut Rng) -> Case {
    let id = peer_id(r);
    get("get_peer", format!("eth/v1/node/peers/{id}"), peer(r), move |c| val(block_on(c.get_peer(de(&json!(id))))))
}
fn peer_summary(r: &mut Rng) -> Case {
    let d = json!({"disconnected": s(num(r)), "connecting": s(num(r)), "connected": s(num(r)), "disconnecting": s(num(r))});
    get("get_peer_summary", "eth/v1/node/peer_count", d, |c| val(block_on(c.get_peer_summary())))
}
fn node_version(r: &mut Rng) -> Case {
    let v = json!(text(r));
    get("get_node_version", "eth/v1/node/version", json!({"version": v}), |c| val(block_on(c.get_node_version()))).want(v)
}
fn syncing(r: &mut Rng) -> Case {
    let d = json!({"head_slot": s(num(r)), "sync_distance": s(num(r)), "is_syncing": r.chance(1, 2)});
    get("get_sync_status", "eth/v1/node/syncing", d, |c| val(block_on(c.get_sync_status())))
}
fn health(_: &mut Rng) -> Case {
    get("get_health", "eth/v1/node/health", Json::Null, |c| {
        block_on(c.get_health()).map(|h| {
            json!(match h {
                HealthStatus::Ready => "ready",
                HealthStatus::Syncing => "syncing",
                HealthStatus::NotInitialized => "not initialized",
                HealthStatus::Unknown => "unknown",
            })
        })
    })
    .wrap(Wrap::Health)
}
fn attester_duties(r: &mut Rng) -> Case {
    let (e, ix, dr) = (num(r), indices(r), root(r));
    let d: Json = many(r, 3, |r| {
        json!({"pubkey": hexs(&r.bytes(48)), "validator_index": s(num(r)), "committee_index": s(num(r)), "committee_length": s(num(r)),
               "committees_at_slot": s(num(r)), "validator_committee_index": s(num(r)), "slot": s(num(r))})
    })
    .into();
    let mut c = post("get_attester_duties", format!("eth/v1/validator/duties/attester/{e}"), strs(&ix), move |c| {
        val(block_on(c.get_attester_duties(e, &ix)))
    });
    c.want = json!([hexs(&dr), d]);
    c.data = d;
    c.wrap(Wrap::Duties(dr))
}
fn proposer_duties(r: &mut Rng) -> Case {
    let (e, dr) = (num(r), root(r));
    let d: Json = many(r, 3, |r| json!({"pubkey": hexs(&r.bytes(48)), "validator_index": s(num(r)), "slot": s(num(r))})).into();
    get("get_proposer_duties", format!("eth/v1/validator/duties/proposer/{e}"), d.clone(), move |c| val(block_on(c.get_proposer_duties(e))))
        .wrap(Wrap::Duties(dr))
        .want(json!([hexs(&dr), d]))
}
fn sync_duties(r: &mut Rng) -> Case {
    let (e, ix) = (num(r), indices(r));
    let d: Json = many(r, 3, |r| {
        json!({"pubkey": hexs(&r.bytes(48)), "validator_index": s(num(r)), "validator_sync_committee_indices": strs(&indices(r))})
    })
    .into();
    let mut c = post("get_sync_committee_duties", format!("eth/v1/validator/duties/sync/{e}"), strs(&ix), move |c| {
        val(block_on(c.get_sync_committee_duties(e, &ix)))
    });
    c.want = d.clone();
    c.data = d;
    c.wrap(Wrap::Data)
}
fn proposal(r: &mut Rng) -> (u64, Vec<u8>, Option<[u8; 32]>) {
    (num(r), r.bytes(96), opt(r, root))
}
fn block_proposal(r: &mut Rng) -> Case {
    let (n, rr, g) = proposal(r);
    let f = *r.pick(&BLOCKS);
    let q = hexs(&rr);
    get("get_block_proposal", format!("eth/v2/validator/blocks/{n}"), cont(r, f, "BeaconBlock"), move |c| {
        val(block_on(c.get_block_proposal(n, de(&json!(hexs(&rr))), g.map(|g| de(&json!(hexs(&g)))))))
    })
    .wrap(Wrap::Versioned(f))
    .q("randao_reveal", Some(q))
    .q("graffiti", g.map(|g| hexs(&g)))
}
fn blinded_proposal(r: &mut Rng) -> Case {
    let (n, rr, g) = proposal(r);
    let f = *r.pick(&BLINDED);
    let q = hexs(&rr);
    get("get_blinded_block_proposal", format!("eth/v1/validator/blinded_blocks/{n}"), cont(r, f, "BlindedBeaconBlock"), move |c| {
        val(block_on(c.get_blinded_block_proposal(n, de(&json!(hexs(&rr))), g.map(|g| de(&json!(hexs(&g)))))))
    })
    .wrap(Wrap::Versioned(f))
    .q("randao_reveal", Some(q))
    .q("graffiti", g.map(|g| hexs(&g)))
}
fn attestation_data(r: &mut Rng) -> Case {
    let (a, b) = (num(r), num(r));
    get("get_attestation_data", "eth/v1/validator/attestation_data", cont(r, Fork::Phase0, "AttestationData"), move |c| {
        val(block_on(c.get_attestation_data(a, b as usize)))
    })
    .q("slot", Some(s(a)))
    .q("committee_index", Some(s(b)))
}
fn aggregate(r: &mut Rng) -> Case {
    let (a, b) = (root(r), num(r));
    get("get_attestation_aggregate", "eth/v1/validator/aggregate_attestation", cont(r, Fork::Phase0, "Attestation"), move |c| {
        val(block_on(c.get_attestation_aggregate(de(&json!(hexs(&a))), b)))
    })
    .q("attestation_data_root", Some(hexs(&a)))
    .q("slot", Some(s(b)))
}
fn post_aggregates(r: &mut Rng) -> Case {
    let b = conts(r, Fork::Phase0, "SignedAggregateAndProof");
    let a = b.clone();
    post("post_aggregates_with_proofs", "eth/v1/validator/aggregate_and_proofs", b, move |c| {
        val(block_on(c.post_aggregates_with_proofs(&de::<Vec<_>>(&a))))
    })
}
fn subscribe_attestations(r: &mut Rng) -> Case {
    let b: Json = many(r, 3, |r| {
        json!({"validator_index": s(num(r)), "committee_index": s(num(r)), "committees_at_slot": s(num(r)), "slot": s(num(r)), "is_aggregator": r.chance(1, 2)})
    })
    .into();
    let a = b.clone();
    post("subscribe_subnets_for_attestation_committees", "eth/v1/validator/beacon_committee_subscriptions", b, move |c| {
        val(block_on(c.subscribe_subnets_for_attestation_committees(&de::<Vec<_>>(&a))))
    })
}
fn subscribe_sync(r: &mut Rng) -> Case {
    let b: Json =
        many(r, 3, |r| json!({"validator_index": s(num(r)), "sync_committee_indices": strs(&indices(r)), "until_epoch": s(num(r))})).into();
    let a = b.clone();
    post("subscribe_subnets_for_sync_committees", "eth/v1/validator/sync_committee_subscriptions", b, move |c| {
        val(block_on(c.subscribe_subnets_for_sync_committees(&de::<Vec<_>>(&a))))
    })
}
fn contribution(r: &mut Rng) -> Case {
    let (a, b, h) = (num(r), num(r), root(r));
    get("get_sync_committee_contribution", "eth/v1/validator/sync_committee_contribution", cont(r, Fork::Altair, "SyncCommitteeContribution"), move |c| {
        val(block_on(c.get_sync_committee_contribution(a, b as usize, de(&json!(hexs(&h))))))
    })
    .q("slot", Some(s(a)))
    .q("subcommittee_index", Some(s(b)))
    .q("beacon_block_root", Some(hexs(&h)))
}
fn post_contributions(r: &mut Rng) -> Case {
    let b = conts(r, Fork::Altair, "SignedContributionAndProof");
    let a = b.clone();
    post("post_sync_committee_contributions_with_proofs", "eth/v1/validator/contribution_and_proofs", b, move |c| {
        val(block_on(c.post_sync_committee_contributions_with_proofs(&de::<Vec<_>>(&a))))
    })
}
fn prepare(r: &mut Rng) -> Case {
    let b: Json = many(r, 3, |r| json!({"validator_index": s(num(r)), "fee_recipient": hexs(&r.bytes(20))})).into();
    let a = b.clone();
    post("prepare_proposers", "eth/v1/validator/prepare_beacon_proposer", b, move |c| val(block_on(c.prepare_proposers(&de::<Vec<_>>(&a)))))
}
fn register(r: &mut Rng) -> Case {
    let b = conts(r, Fork::Bellatrix, "SignedValidatorRegistration");
    let a = b.clone();
    post("register_validators_with_builders", "eth/v1/validator/register_validator", b, move |c| {
        val(block_on(c.register_validators_with_builders(&de::<Vec<_>>(&a))))
    })
}
fn liveness(r: &mut Rng) -> Case {
    let (e, ix) = (num(r), indices(r));
    let d: Json = many(r, 4, |r| json!({"index": s(num(r)), "is_live": r.chance(1, 2)})).into();
    let mut c = post("post_liveness", format!("eth/v1/validator/liveness/{e}"), strs(&ix), move |c| val(block_on(c.post_liveness(e, &ix))));
    c.want = d.clone();
    c.data = d;
    c.wrap(Wrap::Data)
}
