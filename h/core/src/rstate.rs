//! Typed beacon state of the reference: the union of all forks' fields.
use crate::{
    schema::*,
    ty::{Obj, Ty, Val},
};

pub type B32 = [u8; 32];
pub type Cp = (u64, B32);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Validator {
    pub pk: [u8; 48],
    pub wc: B32,
    pub eb: u64,
    pub slashed: bool,
    pub elig: u64,
    pub act: u64,
    pub exit: u64,
    pub wd: u64,
}
impl Validator {
    pub fn active(&self, e: u64) -> bool {
        self.act <= e && e < self.exit
    }
    pub fn slashable(&self, e: u64) -> bool {
        !self.slashed && self.act <= e && e < self.wd
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Header {
    pub slot: u64,
    pub proposer: u64,
    pub parent: B32,
    pub state: B32,
    pub body: B32,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Eth1 {
    pub root: B32,
    pub count: u64,
    pub hash: B32,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SyncCommittee {
    pub pks: Vec<[u8; 48]>,
    pub agg: [u8; 48],
}

#[derive(Clone, Debug)]
pub struct RState {
    pub fork: Fork,
    pub preset: Preset,
    pub genesis_time: u64,
    pub gvr: B32,
    pub slot: u64,
    pub fork_prev: [u8; 4],
    pub fork_cur: [u8; 4],
    pub fork_epoch: u64,
    pub header: Header,
    pub block_roots: Vec<B32>,
    pub state_roots: Vec<B32>,
    pub historical_roots: Vec<B32>,
    pub eth1: Eth1,
    pub eth1_votes: Vec<Eth1>,
    pub eth1_index: u64,
    pub v: Vec<Validator>,
    pub bal: Vec<u64>,
    pub mixes: Vec<B32>,
    pub slashings: Vec<u64>,
    pub prev_atts: Vec<Val>,
    pub cur_atts: Vec<Val>,
    pub prev_part: Vec<u8>,
    pub cur_part: Vec<u8>,
    pub bits: [bool; 4],
    pub pj: Cp,
    pub cj: Cp,
    pub fin: Cp,
    pub inact: Vec<u64>,
    pub cur_sync: SyncCommittee,
    pub next_sync: SyncCommittee,
    pub payload: Option<Val>,
    pub next_wd: u64,
    pub next_wd_v: u64,
    pub summaries: Vec<(B32, B32)>,
    pub receipts_start: u64,
    pub dep_consume: u64,
    pub exit_consume: u64,
    pub earliest_exit: u64,
    pub cons_consume: u64,
    pub earliest_cons: u64,
    pub pend_dep: Vec<(u64, u64)>,
    pub pend_wd: Vec<(u64, u64, u64)>,
    pub pend_cons: Vec<(u64, u64)>,
}

fn root(b: &B32) -> Val {
    Val::Bytes(b.to_vec())
}
fn roots(v: &Val) -> Vec<B32> {
    v.seq().iter().map(|x| x.b32()).collect()
}
fn to_roots(v: &[B32]) -> Val {
    Val::Seq(v.iter().map(root).collect())
}
pub fn obj(ty: &Ty, f: Vec<Val>) -> Val {
    let c = ty.cont();
    assert_eq!(c.fields.len(), f.len(), "harness: field count of {}", c.name);
    Val::Obj(Obj { cont: c.clone(), f })
}
fn cp(v: &Val) -> Cp {
    (v.n("epoch"), v.r("root"))
}
fn to_cp(s: &Schema, c: &Cp) -> Val {
    obj(s.ty("Checkpoint"), vec![Val::U64(c.0), root(&c.1)])
}
impl Eth1 {
    pub fn from_val(v: &Val) -> Self {
        Self { root: v.r("deposit_root"), count: v.n("deposit_count"), hash: v.r("block_hash") }
    }
    pub fn to_val(&self, s: &Schema) -> Val {
        obj(s.ty("Eth1Data"), vec![root(&self.root), Val::U64(self.count), root(&self.hash)])
    }
}
impl Header {
    pub fn from_val(v: &Val) -> Self {
        Self {
            slot: v.n("slot"),
            proposer: v.n("proposer_index"),
            parent: v.r("parent_root"),
            state: v.r("state_root"),
            body: v.r("body_root"),
        }
    }
    pub fn to_val(&self, s: &Schema) -> Val {
        obj(
            s.ty("BeaconBlockHeader"),
            vec![
                Val::U64(self.slot),
                Val::U64(self.proposer),
                root(&self.parent),
                root(&self.state),
                root(&self.body),
            ],
        )
    }
    pub fn htr(&self, s: &Schema) -> B32 {
        self.to_val(s).htr()
    }
}
impl SyncCommittee {
    fn from_val(v: &Val) -> Self {
        Self {
            pks: v.g("public_keys").seq().iter().map(|x| x.bytes().try_into().unwrap()).collect(),
            agg: v.g("aggregate_public_key").bytes().try_into().unwrap(),
        }
    }
    fn to_val(&self, s: &Schema) -> Val {
        obj(
            s.ty("SyncCommittee"),
            vec![
                Val::Seq(self.pks.iter().map(|p| Val::Bytes(p.to_vec())).collect()),
                Val::Bytes(self.agg.to_vec()),
            ],
        )
    }
}

impl RState {
    pub fn schema(&self) -> &'static Schema {
        schema(self.fork, self.preset)
    }
    pub fn blank(fork: Fork, preset: Preset) -> Self {
        let s = schema(fork, preset);
        Self::from_val(s, &s.ty("BeaconState").default())
    }
    pub fn from_val(s: &Schema, v: &Val) -> Self {
        let f = s.fork;
        let opt = |n: &str| v.has(n).then(|| v.g(n));
        let n = |x: &str| opt(x).map(|v| v.u64()).unwrap_or(0);
        let u8s = |x: &str| match opt(x) {
            Some(Val::U8s(b)) => b.clone(),
            _ => vec![],
        };
        let b4 = |v: &Val| -> [u8; 4] { v.bytes().try_into().unwrap() };
        let sync = |x: &str| match opt(x) {
            Some(v) => SyncCommittee::from_val(v),
            None => SyncCommittee { pks: vec![], agg: [0; 48] },
        };
        Self {
            fork: f,
            preset: s.preset,
            genesis_time: n("genesis_time"),
            gvr: v.r("genesis_validators_root"),
            slot: n("slot"),
            fork_prev: b4(v.g("fork").g("previous_version")),
            fork_cur: b4(v.g("fork").g("current_version")),
            fork_epoch: v.g("fork").n("epoch"),
            header: Header::from_val(v.g("latest_block_header")),
            block_roots: roots(v.g("block_roots")),
            state_roots: roots(v.g("state_roots")),
            historical_roots: roots(v.g("historical_roots")),
            eth1: Eth1::from_val(v.g("eth1_data")),
            eth1_votes: v.g("eth1_data_votes").seq().iter().map(Eth1::from_val).collect(),
            eth1_index: n("eth1_deposit_index"),
            v: v.g("validators")
                .seq()
                .iter()
                .map(|x| Validator {
                    pk: x.g("public_key").bytes().try_into().unwrap(),
                    wc: x.r("withdrawal_credentials"),
                    eb: x.n("effective_balance"),
                    slashed: *x.g("slashed") == Val::Bool(true),
                    elig: x.n("activation_eligibility_epoch"),
                    act: x.n("activation_epoch"),
                    exit: x.n("exit_epoch"),
                    wd: x.n("withdrawable_epoch"),
                })
                .collect(),
            bal: v.g("balances").u64s().to_vec(),
            mixes: roots(v.g("randao_mixes")),
            slashings: v.g("slashings").u64s().to_vec(),
            prev_atts: opt("previous_epoch_attestations").map(|x| x.seq().to_vec()).unwrap_or_default(),
            cur_atts: opt("current_epoch_attestations").map(|x| x.seq().to_vec()).unwrap_or_default(),
            prev_part: u8s("previous_epoch_participation"),
            cur_part: u8s("current_epoch_participation"),
            bits: v.g("justification_bits").bits().try_into().unwrap(),
            pj: cp(v.g("previous_justified_checkpoint")),
            cj: cp(v.g("current_justified_checkpoint")),
            fin: cp(v.g("finalized_checkpoint")),
            inact: opt("inactivity_scores").map(|x| x.u64s().to_vec()).unwrap_or_default(),
            cur_sync: sync("current_sync_committee"),
            next_sync: sync("next_sync_committee"),
            payload: opt("latest_execution_payload_header").cloned(),
            next_wd: n("next_withdrawal_index"),
            next_wd_v: n("next_withdrawal_validator_index"),
            summaries: opt("historical_summaries")
                .map(|x| {
                    x.seq().iter().map(|y| (y.r("block_summary_root"), y.r("state_summary_root"))).collect()
                })
                .unwrap_or_default(),
            receipts_start: n("deposit_receipts_start_index"),
            dep_consume: n("deposit_balance_to_consume"),
            exit_consume: n("exit_balance_to_consume"),
            earliest_exit: n("earliest_exit_epoch"),
            cons_consume: n("consolidation_balance_to_consume"),
            earliest_cons: n("earliest_consolidation_epoch"),
            pend_dep: opt("pending_balance_deposits")
                .map(|x| x.seq().iter().map(|y| (y.n("index"), y.n("amount"))).collect())
                .unwrap_or_default(),
            pend_wd: opt("pending_partial_withdrawals")
                .map(|x| {
                    x.seq()
                        .iter()
                        .map(|y| (y.n("index"), y.n("amount"), y.n("withdrawable_epoch")))
                        .collect()
                })
                .unwrap_or_default(),
            pend_cons: opt("pending_consolidations")
                .map(|x| x.seq().iter().map(|y| (y.n("source_index"), y.n("target_index"))).collect())
                .unwrap_or_default(),
        }
    }
    pub fn to_val(&self) -> Val {
        let s = self.schema();
        let ty = s.ty("BeaconState");
        let u = |x: u64| Val::U64(x);
        let f = ty
            .cont()
            .fields
            .iter()
            .map(|f| match f.name {
                "genesis_time" => u(self.genesis_time),
                "genesis_validators_root" => root(&self.gvr),
                "slot" => u(self.slot),
                "fork" => obj(
                    s.ty("Fork"),
                    vec![
                        Val::Bytes(self.fork_prev.to_vec()),
                        Val::Bytes(self.fork_cur.to_vec()),
                        u(self.fork_epoch),
                    ],
                ),
                "latest_block_header" => self.header.to_val(s),
                "block_roots" => to_roots(&self.block_roots),
                "state_roots" => to_roots(&self.state_roots),
                "historical_roots" => to_roots(&self.historical_roots),
                "eth1_data" => self.eth1.to_val(s),
                "eth1_data_votes" => Val::Seq(self.eth1_votes.iter().map(|e| e.to_val(s)).collect()),
                "eth1_deposit_index" => u(self.eth1_index),
                "validators" => Val::Seq(
                    self.v
                        .iter()
                        .map(|x| {
                            obj(
                                s.ty("Validator"),
                                vec![
                                    Val::Bytes(x.pk.to_vec()),
                                    root(&x.wc),
                                    u(x.eb),
                                    Val::Bool(x.slashed),
                                    u(x.elig),
                                    u(x.act),
                                    u(x.exit),
                                    u(x.wd),
                                ],
                            )
                        })
                        .collect(),
                ),
                "balances" => Val::U64s(self.bal.clone()),
                "randao_mixes" => to_roots(&self.mixes),
                "slashings" => Val::U64s(self.slashings.clone()),
                "previous_epoch_attestations" => Val::Seq(self.prev_atts.clone()),
                "current_epoch_attestations" => Val::Seq(self.cur_atts.clone()),
                "previous_epoch_participation" => Val::U8s(self.prev_part.clone()),
                "current_epoch_participation" => Val::U8s(self.cur_part.clone()),
                "justification_bits" => Val::Bits(self.bits.to_vec()),
                "previous_justified_checkpoint" => to_cp(s, &self.pj),
                "current_justified_checkpoint" => to_cp(s, &self.cj),
                "finalized_checkpoint" => to_cp(s, &self.fin),
                "inactivity_scores" => Val::U64s(self.inact.clone()),
                "current_sync_committee" => self.cur_sync.to_val(s),
                "next_sync_committee" => self.next_sync.to_val(s),
                "latest_execution_payload_header" => {
                    self.payload.clone().unwrap_or_else(|| s.ty("ExecutionPayloadHeader").default())
                }
                "next_withdrawal_index" => u(self.next_wd),
                "next_withdrawal_validator_index" => u(self.next_wd_v),
                "historical_summaries" => Val::Seq(
                    self.summaries
                        .iter()
                        .map(|x| obj(s.ty("HistoricalSummary"), vec![root(&x.0), root(&x.1)]))
                        .collect(),
                ),
                "deposit_receipts_start_index" => u(self.receipts_start),
                "deposit_balance_to_consume" => u(self.dep_consume),
                "exit_balance_to_consume" => u(self.exit_consume),
                "earliest_exit_epoch" => u(self.earliest_exit),
                "consolidation_balance_to_consume" => u(self.cons_consume),
                "earliest_consolidation_epoch" => u(self.earliest_cons),
                "pending_balance_deposits" => Val::Seq(
                    self.pend_dep
                        .iter()
                        .map(|x| obj(s.ty("PendingBalanceDeposit"), vec![u(x.0), u(x.1)]))
                        .collect(),
                ),
                "pending_partial_withdrawals" => Val::Seq(
                    self.pend_wd
                        .iter()
                        .map(|x| obj(s.ty("PendingPartialWithdrawal"), vec![u(x.0), u(x.1), u(x.2)]))
                        .collect(),
                ),
                "pending_consolidations" => Val::Seq(
                    self.pend_cons
                        .iter()
                        .map(|x| obj(s.ty("PendingConsolidation"), vec![u(x.0), u(x.1)]))
                        .collect(),
                ),
                n => panic!("harness: state field {n}"),
            })
            .collect();
        obj(ty, f)
    }
    pub fn htr(&self) -> B32 {
        self.to_val().htr()
    }
}
