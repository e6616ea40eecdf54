//! The code under test, driven through its public entry points for every (fork, preset).
use crate::schema::{Fork, Preset};
use ethereum_consensus::{
    altair, bellatrix, capella, deneb, electra, phase0,
    primitives::{Bytes32, Hash32},
    ssz::prelude::*,
    state_transition::{Context, Validation},
};
use ethereum_consensus::domains::DomainType;
use serde_json::{json, Value as Json};
use vcommon::guard;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// the bytes were not accepted as a value of the type
    Decode(String),
    /// the operation returned an error
    Err(String),
    Panic(String),
}
pub type Out = Result<Vec<u8>, Fail>;

#[derive(Clone, Copy, Debug)]
pub enum Op<'a> {
    /// signed block, validate
    Transition(&'a [u8], bool),
    BlockInSlot(&'a [u8], bool),
    /// signed block (only the message is used)
    Block(&'a [u8]),
    Slots(u64),
    Slot,
    Epoch,
    Slash(usize, Option<usize>),
}
/// sequences of operations on one state; the second component is the outcome of each step
pub struct Genesis<'a> {
    pub hash: [u8; 32],
    pub time: u64,
    pub deposits: &'a [Vec<u8>],
    pub header: Option<&'a [u8]>,
}
pub struct GenesisOut {
    pub state: Vec<u8>,
    pub valid: bool,
    pub block: Vec<u8>,
}

fn val(b: bool) -> Validation {
    if b {
        Validation::Enabled
    } else {
        Validation::Disabled
    }
}
pub fn dec<T: Deserialize>(b: &[u8]) -> Result<T, Fail> {
    T::deserialize(b).map_err(|e| Fail::Decode(format!("{e:?}")))
}
pub fn enc<T: Serialize>(v: &T) -> Vec<u8> {
    ssz_rs::serialize(v).expect("harness: value of the code under test does not serialize")
}
fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| {
        let mut s = format!("{e:?}");
        s.truncate(300);
        Fail::Err(s)
    })
}

pub mod electra_types {
    pub mod minimal {
        use ethereum_consensus::{altair::minimal::*, bellatrix::minimal::*, capella::minimal::*, deneb::minimal::*, electra};
        pub const MAX_VALIDATORS_PER_SLOT: usize = 2048 * 4;
        pub const MAX_COMMITTEES: usize = 4;
        pub const RECEIPTS: usize = 4;
        pub const WREQS: usize = 2;
        pub const PARTIALS: usize = 64;
        pub const CONS: usize = 64;
        include!("electra_aliases.rs");
    }
    pub mod mainnet {
        use ethereum_consensus::{altair::mainnet::*, bellatrix::mainnet::*, capella::mainnet::*, deneb::mainnet::*, electra};
        pub const MAX_VALIDATORS_PER_SLOT: usize = 2048 * 64;
        pub const MAX_COMMITTEES: usize = 64;
        pub const RECEIPTS: usize = 8192;
        pub const WREQS: usize = 16;
        pub const PARTIALS: usize = 1 << 27;
        pub const CONS: usize = 1 << 18;
        include!("electra_aliases.rs");
    }
}

macro_rules! driver {
    ($name:ident, $f:ident, $t:path) => {
        #[allow(dead_code)]
        fn $name(state: &[u8], ops: &[Op], ctx: &Context) -> Vec<Out> {
            use $t as t;
            let mut s: t::BeaconState = match dec(state) {
                Ok(s) => s,
                Err(e) => return vec![Err(e)],
            };
            let mut out = vec![];
            for op in ops {
                let r = guard(|| -> Result<(), Fail> {
                    match op {
                        Op::Transition(b, v) => {
                            let b: t::SignedBeaconBlock = dec(b)?;
                            e($f::state_transition(&mut s, &b, val(*v), ctx))
                        }
                        Op::BlockInSlot(b, v) => {
                            let b: t::SignedBeaconBlock = dec(b)?;
                            e($f::state_transition_block_in_slot(&mut s, &b, val(*v), ctx))
                        }
                        Op::Block(b) => {
                            let b: t::SignedBeaconBlock = dec(b)?;
                            e($f::process_block(&mut s, &b.message, ctx))
                        }
                        Op::Slots(n) => e($f::process_slots(&mut s, *n, ctx)),
                        Op::Slot => e($f::process_slot(&mut s, ctx)),
                        Op::Epoch => e($f::process_epoch(&mut s, ctx)),
                        Op::Slash(i, w) => e($f::slash_validator(&mut s, *i, *w, ctx)),
                    }
                });
                let r = match r {
                    Ok(r) => r,
                    Err(p) => Err(Fail::Panic(p)),
                };
                let stop = r.is_err();
                out.push(r.map(|_| enc(&s)));
                if stop {
                    break;
                }
            }
            out
        }
    };
}
driver!(phase0_min, phase0, ethereum_consensus::phase0::minimal);
driver!(altair_min, altair, ethereum_consensus::altair::minimal);
driver!(bellatrix_min, bellatrix, ethereum_consensus::bellatrix::minimal);
driver!(capella_min, capella, ethereum_consensus::capella::minimal);
driver!(deneb_min, deneb, ethereum_consensus::deneb::minimal);
driver!(electra_min, electra, self::electra_types::minimal);
driver!(phase0_main, phase0, ethereum_consensus::phase0::mainnet);
driver!(altair_main, altair, ethereum_consensus::altair::mainnet);
driver!(bellatrix_main, bellatrix, ethereum_consensus::bellatrix::mainnet);
driver!(capella_main, capella, ethereum_consensus::capella::mainnet);
driver!(deneb_main, deneb, ethereum_consensus::deneb::mainnet);
driver!(electra_main, electra, self::electra_types::mainnet);

/// runs `ops` in order on the decoded state; stops at the first failure
pub fn run(f: Fork, p: Preset, state: &[u8], ops: &[Op], ctx: &Context) -> Vec<Out> {
    use Fork::*;
    use Preset::*;
    let d = match (f, p) {
        (Phase0, Minimal) => phase0_min,
        (Altair, Minimal) => altair_min,
        (Bellatrix, Minimal) => bellatrix_min,
        (Capella, Minimal) => capella_min,
        (Deneb, Minimal) => deneb_min,
        (Electra, Minimal) => electra_min,
        (Phase0, Mainnet) => phase0_main,
        (Altair, Mainnet) => altair_main,
        (Bellatrix, Mainnet) => bellatrix_main,
        (Capella, Mainnet) => capella_main,
        (Deneb, Mainnet) => deneb_main,
        (Electra, Mainnet) => electra_main,
    };
    match guard(|| d(state, ops, ctx)) {
        Ok(v) => v,
        Err(p) => vec![Err(Fail::Panic(p))],
    }
}
pub fn run1(f: Fork, p: Preset, state: &[u8], op: Op, ctx: &Context) -> Out {
    run(f, p, state, &[op], ctx).pop().unwrap()
}

fn guarded<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    match guard(f) {
        Ok(r) => r,
        Err(p) => Err(Fail::Panic(p)),
    }
}

/// upgrades a state of the fork before `to`
pub fn upgrade(to: Fork, p: Preset, state: &[u8], ctx: &Context) -> Out {
    macro_rules! go {
        ($pre:path, $f:expr) => {{
            use $pre as t;
            let s: t::BeaconState = dec(state)?;
            let post = $f(&s)?;
            Ok(enc(&post))
        }};
    }
    macro_rules! all {
        ($m:ident) => {
            match to {
                Fork::Phase0 => panic!("harness: upgrade to phase0"),
                Fork::Altair => go!(phase0::$m, |s| -> Result<altair::$m::BeaconState, Fail> {
                    e(altair::upgrade_to_altair(s, ctx))
                }),
                Fork::Bellatrix => go!(altair::$m, |s| -> Result<bellatrix::$m::BeaconState, Fail> {
                    Ok(bellatrix::upgrade_to_bellatrix(s, ctx))
                }),
                Fork::Capella => go!(bellatrix::$m, |s| -> Result<capella::$m::BeaconState, Fail> {
                    Ok(capella::upgrade_to_capella(s, ctx))
                }),
                Fork::Deneb => go!(capella::$m, |s| -> Result<deneb::$m::BeaconState, Fail> {
                    Ok(deneb::upgrade_to_deneb(s, ctx))
                }),
                Fork::Electra => {
                    go!(deneb::$m, |s| -> Result<electra_types::$m::BeaconState, Fail> {
                        e(electra::upgrade_to_electra(s, ctx))
                    })
                }
            }
        };
    }
    guarded(|| match p {
        Preset::Minimal => all!(minimal),
        Preset::Mainnet => all!(mainnet),
    })
}

pub fn genesis(f: Fork, p: Preset, g: &Genesis, ctx: &Context) -> Result<GenesisOut, Fail> {
    let hash: Hash32 = Bytes32::try_from(&g.hash[..]).unwrap();
    let deposits: Vec<phase0::Deposit> = g.deposits.iter().map(|d| dec(d)).collect::<Result<_, _>>()?;
    macro_rules! go {
        ($f:ident, $t:path, $h:expr) => {{
            use $t as t;
            let h = $h;
            let s: t::BeaconState = e(h(&hash, &deposits))?;
            let valid = $f::is_valid_genesis_state(&s, ctx);
            let b: t::BeaconBlock = e($f::get_genesis_block(&s))?;
            Ok(GenesisOut { state: enc(&s), valid, block: enc(&b) })
        }};
    }
    macro_rules! post {
        ($f:ident, $t:path, $init:expr) => {{
            use $t as tt;
            let header: Option<tt::ExecutionPayloadHeader> = match g.header {
                Some(h) => Some(dec(h)?),
                None => None,
            };
            let init = $init;
            go!($f, $t, |hash: &Hash32, d: &[phase0::Deposit]| {
                init(hash.clone(), g.time, d, header.as_ref(), ctx)
            })
        }};
    }
    const TXB: usize = 1 << 30;
    const TXS: usize = 1 << 20;
    macro_rules! all {
        ($m:ident, $wd:literal, $blobs:literal, $slot:literal, $com:literal, $rec:literal, $wr:literal) => {
            match f {
                Fork::Phase0 => go!(phase0, phase0::$m, |hash: &Hash32, d: &[phase0::Deposit]| {
                    phase0::initialize_beacon_state_from_eth1::<_, _, _, _, _, _, _, _, 16, 2, 128, 16, 16>(
                        hash.clone(), g.time, d, ctx,
                    )
                }),
                Fork::Altair => go!(altair, altair::$m, |hash: &Hash32, d: &[phase0::Deposit]| {
                    altair::initialize_beacon_state_from_eth1::<_, _, _, _, _, _, _, _, 16, 2, 128, 16, 16>(
                        hash.clone(), g.time, d, ctx,
                    )
                }),
                Fork::Bellatrix => post!(
                    bellatrix,
                    bellatrix::$m,
                    bellatrix::initialize_beacon_state_from_eth1::<
                        _, _, _, _, _, _, _, _, 16, 2, 128, 16, 16, _, _, TXB, TXS,
                    >
                ),
                Fork::Capella => post!(
                    capella,
                    capella::$m,
                    capella::initialize_beacon_state_from_eth1::<
                        _, _, _, _, _, _, _, _, 16, 2, 128, 16, 16, _, _, TXB, TXS, $wd, 16,
                    >
                ),
                Fork::Deneb => post!(
                    deneb,
                    deneb::$m,
                    deneb::initialize_beacon_state_from_eth1::<
                        _, _, _, _, _, _, _, _, 16, 2, 128, 16, 16, _, _, TXB, TXS, $wd, 16, $blobs,
                    >
                ),
                Fork::Electra => post!(
                    electra,
                    electra_types::$m,
                    electra::initialize_beacon_state_from_eth1::<
                        _, _, _, _, _, _, _, _, _, _, _, 16, $slot, $com, 1, 8, 16, 16, _, _, TXB, TXS, $wd,
                        $rec, $wr, 16, $blobs, 1,
                    >
                ),
            }
        };
    }
    guarded(|| match p {
        Preset::Minimal => all!(minimal, 4, 16, 8192, 4, 4, 2),
        Preset::Mainnet => all!(mainnet, 16, 4096, 131072, 64, 8192, 16),
    })
}

// ------------------------------------------------------------------------------- queries
/// read-only questions about a state
#[derive(Clone, Debug)]
pub enum Q {
    Epoch,
    PrevEpoch,
    Active(u64),
    CommitteeCount(u64),
    Committee(u64, usize),
    Proposer,
    SyncIndices,
    SyncCommittee,
    Seed(u64, u8),
    Mix(u64),
    RootAtSlot(u64),
    RootAtEpoch(u64),
    TotalBalance(Vec<usize>),
    TotalActive,
    Churn,
    ActivationChurn,
    Domain(u8, Option<u64>),
    Eligible,
    BaseReward(usize),
    RewardPerIncrement,
    ProposerReward(usize),
    Leak,
    FinalityDelay,
    TimeAt(u64),
    Withdrawals,
    Participating(usize, u64),
    FlagDeltas(usize),
    InactivityDeltas,
    BalanceChurn,
    ActExitChurn,
    ConsolidationChurn,
    ActiveBalance(usize),
    PendingToWithdraw(usize),
    /// active, slashable at the epoch, ready to be queued for activation, to be activated
    Flags(usize, u64),
    /// fully withdrawable at the epoch, partially withdrawable, has execution credentials
    Withdrawable(usize, u64),
    MaxBalance(usize),
    MergeComplete,
    /// pending attestations of an epoch with the right source, target, head
    Matching(u8, u64),
    /// who attests: slot, committee, bits (one committee)
    Attesters(u64, usize, Vec<bool>),
    /// the same where an attestation spans committees
    AttestersOf(u64, Vec<usize>, Vec<bool>),
}
fn bits<const N: usize>(v: &[bool]) -> ssz_rs::prelude::Bitlist<N> {
    let mut b = ssz_rs::prelude::Bitlist::default();
    for x in v {
        b.push(*x);
    }
    b
}
fn dt(d: u8) -> DomainType {
    use DomainType::*;
    [
        BeaconProposer, BeaconAttester, Randao, Deposit, VoluntaryExit, SelectionProof, AggregateAndProof, SyncCommittee,
        SyncCommitteeSelectionProof, ContributionAndProof, BlsToExecutionChange, Consolidation,
    ][d as usize]
}
fn hx(b: impl AsRef<[u8]>) -> Json {
    json!(vcommon::hexs(b.as_ref()))
}
fn sorted(mut v: Vec<usize>) -> Json {
    v.sort();
    json!(v)
}
macro_rules! asker {
    ($name:ident, $f:ident, $t:path, |$s:ident, $ctx:ident| { $($pat:pat => $val:expr,)* }) => {
        fn $name(state: &[u8], qs: &[Q], $ctx: &Context) -> Result<Vec<Result<Json, Fail>>, Fail> {
            use $t as t;
            let state: t::BeaconState = dec(state)?;
            let $s = &state;
            Ok(qs.iter().map(|q| guarded(|| Ok(match q {
                $($pat => $val,)*
                Q::Epoch => json!($f::get_current_epoch($s, $ctx)),
                Q::PrevEpoch => json!($f::get_previous_epoch($s, $ctx)),
                Q::Active(x) => json!($f::get_active_validator_indices($s, *x)),
                Q::CommitteeCount(x) => json!($f::get_committee_count_per_slot($s, *x, $ctx)),
                Q::Committee(x, i) => json!(e($f::get_beacon_committee($s, *x, *i, $ctx))?),
                Q::Proposer => json!(e($f::get_beacon_proposer_index($s, $ctx))?),
                Q::Seed(x, d) => hx($f::get_seed($s, *x, dt(*d), $ctx)),
                Q::Mix(x) => hx($f::get_randao_mix($s, *x)),
                Q::RootAtSlot(x) => hx(e($f::get_block_root_at_slot($s, *x))?),
                Q::RootAtEpoch(x) => hx(e($f::get_block_root($s, *x, $ctx))?),
                Q::TotalBalance(v) => json!(e($f::get_total_balance($s, &v.iter().copied().collect(), $ctx))?),
                Q::TotalActive => json!(e($f::get_total_active_balance($s, $ctx))?),
                Q::Churn => json!($f::get_validator_churn_limit($s, $ctx)),
                Q::Domain(d, x) => hx(e($f::get_domain($s, dt(*d), *x, $ctx))?),
                Q::Eligible => sorted($f::get_eligible_validator_indices($s, $ctx).collect()),
                Q::BaseReward(i) => json!(e($f::get_base_reward($s, *i, $ctx))?),
                Q::Leak => json!($f::is_in_inactivity_leak($s, $ctx)),
                Q::FinalityDelay => json!($f::get_finality_delay($s, $ctx)),
                #[allow(unreachable_patterns)]
                Q::Flags(i, x) => {
                    let v = &$s.validators[*i];
                    json!([phase0::is_active_validator(v, *x), phase0::is_slashable_validator(v, *x), phase0::is_eligible_for_activation_queue(v, $ctx), $f::is_eligible_for_activation($s, v)])
                }
                #[allow(unreachable_patterns)]
                other => panic!("harness: {other:?} is no question for this fork"),
            }))).collect())
        }
    };
}
macro_rules! ask_phase0 { ($name:ident, $t:path) => { asker!($name, phase0, $t, |s, ctx| {
    Q::ProposerReward(i) => json!(e(phase0::get_proposer_reward(s, *i, ctx))?),
    Q::Matching(k, x) => json!(match k {
        0 => e(phase0::get_matching_source_attestations(s, *x, ctx))?.iter().map(|a| hx(enc(a))).collect::<Vec<_>>(),
        1 => e(phase0::get_matching_target_attestations(s, *x, ctx))?.iter().map(|a| hx(enc(*a))).collect(),
        _ => e(phase0::get_matching_head_attestations(s, *x, ctx))?.iter().map(|a| hx(enc(*a))).collect(),
    }),
    Q::Attesters(x, i, b) => {
        let d = phase0::AttestationData { slot: *x, index: *i, ..Default::default() };
        sorted(e(phase0::get_attesting_indices(s, &d, &bits(b), ctx))?.into_iter().collect())
    },
}); } }
macro_rules! ask_altair { ($name:ident, $f:ident, $t:path, |$s:ident, $ctx:ident| { $($pat:pat => $val:expr,)* }) => { asker!($name, $f, $t, |$s, $ctx| {
    $($pat => $val,)*
    Q::SyncIndices => json!(e($f::get_next_sync_committee_indices($s, $ctx))?),
    Q::SyncCommittee => {
        let c = e($f::get_next_sync_committee($s, $ctx))?;
        json!([c.public_keys.iter().map(|k| hx(enc(k))).collect::<Vec<_>>(), hx(enc(&c.aggregate_public_key))])
    },
    Q::RewardPerIncrement => json!(e($f::get_base_reward_per_increment($s, $ctx))?),
    Q::Participating(f, x) => sorted(e($f::get_unslashed_participating_indices($s, *f, *x, $ctx))?.into_iter().collect()),
    Q::FlagDeltas(f) => json!(e($f::get_flag_index_deltas($s, *f, $ctx))?),
    Q::InactivityDeltas => json!(e($f::get_inactivity_penalty_deltas($s, $ctx))?),
}); } }
macro_rules! ask_bellatrix { ($name:ident, $f:ident, $t:path, |$s:ident, $ctx:ident| { $($pat:pat => $val:expr,)* }) => { ask_altair!($name, $f, $t, |$s, $ctx| {
    $($pat => $val,)*
    Q::TimeAt(x) => json!(e($f::compute_timestamp_at_slot($s, *x, $ctx))?),
    Q::MergeComplete => json!($f::is_merge_transition_complete($s)),
}); } }
macro_rules! wds {
    ($l:expr) => {
        json!($l.iter().map(|w| json!([w.index, w.validator_index, hx(&w.address), w.amount])).collect::<Vec<_>>())
    };
}
macro_rules! ask_capella { ($name:ident, $f:ident, $t:path, |$s:ident, $ctx:ident| { $($pat:pat => $val:expr,)* }) => { ask_bellatrix!($name, $f, $t, |$s, $ctx| {
    $($pat => $val,)*
    Q::Withdrawals => json!([wds!($f::get_expected_withdrawals($s, $ctx)), 0]),
    Q::Withdrawable(i, x) => {
        let (v, b) = (&$s.validators[*i], $s.balances[*i]);
        json!([capella::is_fully_withdrawable_validator(v, b, *x), capella::is_partially_withdrawable_validator(v, b, $ctx), capella::has_eth1_withdrawal_credential(v)])
    },
}); } }
macro_rules! ask_electra { ($name:ident, $t:path) => { ask_bellatrix!($name, electra, $t, |s, ctx| {
    Q::ActivationChurn => json!(electra::get_validator_activation_churn_limit(s, ctx)),
    Q::Withdrawals => {
        let (w, n) = electra::get_expected_withdrawals(s, ctx);
        json!([wds!(w), n])
    },
    Q::Withdrawable(i, x) => {
        let (v, b) = (&s.validators[*i], s.balances[*i]);
        json!([electra::is_fully_withdrawable_validator(v, b, *x), electra::is_partially_withdrawable_validator(v, b, ctx), electra::has_execution_withdrawal_credential(v)])
    },
    Q::Flags(i, x) => {
        let v = &s.validators[*i];
        json!([phase0::is_active_validator(v, *x), phase0::is_slashable_validator(v, *x), electra::is_eligible_for_activation_queue(v, ctx), electra::is_eligible_for_activation(s, v)])
    },
    Q::BalanceChurn => json!(e(electra::get_balance_churn_limit(s, ctx))?),
    Q::ActExitChurn => json!(e(electra::get_activation_exit_churn_limit(s, ctx))?),
    Q::ConsolidationChurn => json!(e(electra::get_consolidation_churn_limit(s, ctx))?),
    Q::ActiveBalance(i) => json!(electra::get_active_balance(s, *i, ctx)),
    Q::PendingToWithdraw(i) => json!(electra::get_pending_balance_to_withdraw(s, *i)),
    Q::AttestersOf(x, cs, b) => {
        let mut a = t::Attestation { aggregation_bits: bits(b), ..Default::default() };
        a.data.slot = *x;
        for i in cs {
            a.committee_bits.set(*i, true);
        }
        sorted(e(electra::get_attesting_indices(s, &a, ctx))?.into_iter().collect())
    },
    Q::MaxBalance(i) => json!(electra::get_validator_max_effective_balance(&s.validators[*i], ctx)),
}); } }
macro_rules! ask_both { ($m:ident) => { pub mod $m {
    use super::*;
    ask_phase0!(phase0_q, ethereum_consensus::phase0::$m);
    ask_altair!(altair_q, altair, ethereum_consensus::altair::$m, |s, ctx| {
        Q::Attesters(x, i, b) => {
            let d = phase0::AttestationData { slot: *x, index: *i, ..Default::default() };
            sorted(e(altair::get_attesting_indices(s, &d, &bits(b), ctx))?.into_iter().collect())
        },
    });
    ask_bellatrix!(bellatrix_q, bellatrix, ethereum_consensus::bellatrix::$m, |s, ctx| {
        Q::Attesters(x, i, b) => {
            let d = phase0::AttestationData { slot: *x, index: *i, ..Default::default() };
            sorted(e(bellatrix::get_attesting_indices(s, &d, &bits(b), ctx))?.into_iter().collect())
        },
    });
    ask_capella!(capella_q, capella, ethereum_consensus::capella::$m, |s, ctx| {
        Q::Attesters(x, i, b) => {
            let d = phase0::AttestationData { slot: *x, index: *i, ..Default::default() };
            sorted(e(capella::get_attesting_indices(s, &d, &bits(b), ctx))?.into_iter().collect())
        },
    });
    ask_capella!(deneb_q, deneb, ethereum_consensus::deneb::$m, |s, ctx| {
        Q::Attesters(x, i, b) => {
            let d = phase0::AttestationData { slot: *x, index: *i, ..Default::default() };
            sorted(e(deneb::get_attesting_indices(s, &d, &bits(b), ctx))?.into_iter().collect())
        },
        Q::ActivationChurn => json!(deneb::get_validator_activation_churn_limit(s, ctx)), });
    ask_electra!(electra_q, crate::repo::electra_types::$m);
    pub fn ask(f: Fork, state: &[u8], qs: &[Q], ctx: &Context) -> Result<Vec<Result<Json, Fail>>, Fail> {
        (match f {
            Fork::Phase0 => phase0_q,
            Fork::Altair => altair_q,
            Fork::Bellatrix => bellatrix_q,
            Fork::Capella => capella_q,
            Fork::Deneb => deneb_q,
            Fork::Electra => electra_q,
        })(state, qs, ctx)
    }
} } }
ask_both!(minimal);
ask_both!(mainnet);
/// answers of the code under test, in order
pub fn ask(f: Fork, p: Preset, state: &[u8], qs: &[Q], ctx: &Context) -> Vec<Result<Json, Fail>> {
    match p {
        Preset::Minimal => minimal::ask(f, state, qs, ctx),
        Preset::Mainnet => mainnet::ask(f, state, qs, ctx),
    }
    .expect("harness: generated state does not decode")
}
