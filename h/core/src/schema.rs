//! Container definitions of the beacon chain for every fork and preset, written from the specs.
use crate::ty::{Cont, Field, Ty};
use std::{
    collections::HashMap,
    sync::{Arc, OnceLock},
};
use Ty::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Fork {
    Phase0,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
}
pub use Fork::*;
pub const FORKS: [Fork; 6] = [Phase0, Altair, Bellatrix, Capella, Deneb, Electra];
impl Fork {
    pub fn name(self) -> &'static str {
        ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"][self as usize]
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Preset {
    Minimal,
    Mainnet,
}

/// preset sizes (consensus-specs `presets/`)
#[derive(Clone, Copy, Debug)]
pub struct Sizes {
    pub slots_per_epoch: usize,
    pub max_committees: usize,
    pub slots_per_hist_root: usize,
    pub eth1_votes: usize,
    pub randao: usize,
    pub slashings: usize,
    pub sync: usize,
    pub withdrawals: usize,
    pub blob_commitments: usize,
    pub kzg_depth: usize,
    pub pending_atts: usize,
    // electra
    pub pending_deposits: usize,
    pub pending_partials: usize,
    pub pending_consolidations: usize,
    pub deposit_receipts: usize,
    pub withdrawal_requests: usize,
}
pub const REGISTRY: usize = 1 << 40;
pub fn sizes(p: Preset) -> Sizes {
    match p {
        Preset::Minimal => Sizes {
            slots_per_epoch: 8,
            max_committees: 4,
            slots_per_hist_root: 64,
            eth1_votes: 32,
            randao: 64,
            slashings: 64,
            sync: 32,
            withdrawals: 4,
            blob_commitments: 16,
            kzg_depth: 9,
            pending_atts: 1024,
            pending_deposits: 1 << 27,
            pending_partials: 64,
            pending_consolidations: 64,
            deposit_receipts: 4,
            withdrawal_requests: 2,
        },
        Preset::Mainnet => Sizes {
            slots_per_epoch: 32,
            max_committees: 64,
            slots_per_hist_root: 8192,
            eth1_votes: 2048,
            randao: 65536,
            slashings: 8192,
            sync: 512,
            withdrawals: 16,
            blob_commitments: 4096,
            kzg_depth: 17,
            pending_atts: 4096,
            pending_deposits: 1 << 27,
            pending_partials: 1 << 27,
            pending_consolidations: 1 << 18,
            deposit_receipts: 8192,
            withdrawal_requests: 16,
        },
    }
}

pub struct Schema {
    pub fork: Fork,
    pub preset: Preset,
    pub s: Sizes,
    t: HashMap<&'static str, Ty>,
    order: Vec<&'static str>,
}
impl Schema {
    pub fn ty(&self, n: &str) -> &Ty {
        self.t.get(n).unwrap_or_else(|| panic!("harness: no type {n} in {:?}", self.fork))
    }
    pub fn has(&self, n: &str) -> bool {
        self.t.contains_key(n)
    }
    pub fn names(&self) -> &[&'static str] {
        &self.order
    }
    fn add(&mut self, name: &'static str, fields: Vec<(&'static str, Ty)>) -> Ty {
        let ty = C(Arc::new(Cont {
            name: name.to_string(),
            fields: fields
                .into_iter()
                .map(|(n, ty)| {
                    let json = match n {
                        "public_key" | "validator_public_key" => "pubkey",
                        "public_keys" => "pubkeys",
                        "aggregate_public_key" => "aggregate_pubkey",
                        "from_bls_public_key" => "from_bls_pubkey",
                        n => n,
                    };
                    Field { name: n, json, ty }
                })
                .collect(),
        }));
        self.t.insert(name, ty.clone());
        self.order.push(name);
        ty
    }
}
fn l(t: &Ty, n: usize) -> Ty {
    L(Box::new(t.clone()), n)
}
fn v(t: &Ty, n: usize) -> Ty {
    V(Box::new(t.clone()), n)
}

pub fn schema(fork: Fork, preset: Preset) -> &'static Schema {
    static S: OnceLock<Vec<Schema>> = OnceLock::new();
    let all = S.get_or_init(|| {
        let mut o = vec![];
        for f in FORKS {
            o.push(build(f, Preset::Minimal));
            o.push(build(f, Preset::Mainnet));
        }
        o
    });
    &all[fork as usize * 2 + (preset == Preset::Mainnet) as usize]
}

fn build(fork: Fork, preset: Preset) -> Schema {
    let z = sizes(preset);
    let mut s = Schema { fork, preset, s: z, t: HashMap::new(), order: vec![] };
    let root = BV(32);
    let pk = BV(48);
    let sig = BV(96);
    let addr = BV(20);
    let ver = BV(4);
    let vpc = 2048;

    let fork_t = s.add("Fork", vec![("previous_version", ver.clone()), ("current_version", ver.clone()), ("epoch", U64)]);
    s.add("ForkData", vec![("current_version", ver.clone()), ("genesis_validators_root", root.clone())]);
    let checkpoint = s.add("Checkpoint", vec![("epoch", U64), ("root", root.clone())]);
    let validator = s.add(
        "Validator",
        vec![
            ("public_key", pk.clone()),
            ("withdrawal_credentials", root.clone()),
            ("effective_balance", U64),
            ("slashed", Bool),
            ("activation_eligibility_epoch", U64),
            ("activation_epoch", U64),
            ("exit_epoch", U64),
            ("withdrawable_epoch", U64),
        ],
    );
    let att_data = s.add(
        "AttestationData",
        vec![
            ("slot", U64),
            ("index", U64),
            ("beacon_block_root", root.clone()),
            ("source", checkpoint.clone()),
            ("target", checkpoint.clone()),
        ],
    );
    let max_idx = if fork == Electra { vpc * z.max_committees } else { vpc };
    let indexed = s.add(
        "IndexedAttestation",
        vec![("attesting_indices", l(&U64, max_idx)), ("data", att_data.clone()), ("signature", sig.clone())],
    );
    let pending_att = s.add(
        "PendingAttestation",
        vec![("aggregation_bits", BitL(vpc)), ("data", att_data.clone()), ("inclusion_delay", U64), ("proposer_index", U64)],
    );
    let eth1 = s.add("Eth1Data", vec![("deposit_root", root.clone()), ("deposit_count", U64), ("block_hash", root.clone())]);
    s.add("HistoricalBatch", vec![("block_roots", v(&root, z.slots_per_hist_root)), ("state_roots", v(&root, z.slots_per_hist_root))]);
    let hist_summary = s.add("HistoricalSummary", vec![("block_summary_root", root.clone()), ("state_summary_root", root.clone())]);
    s.add("DepositMessage", vec![("public_key", pk.clone()), ("withdrawal_credentials", root.clone()), ("amount", U64)]);
    let deposit_data = s.add(
        "DepositData",
        vec![("public_key", pk.clone()), ("withdrawal_credentials", root.clone()), ("amount", U64), ("signature", sig.clone())],
    );
    let header = s.add(
        "BeaconBlockHeader",
        vec![("slot", U64), ("proposer_index", U64), ("parent_root", root.clone()), ("state_root", root.clone()), ("body_root", root.clone())],
    );
    let sheader = s.add("SignedBeaconBlockHeader", vec![("message", header.clone()), ("signature", sig.clone())]);
    let prop_slash = s.add("ProposerSlashing", vec![("signed_header_1", sheader.clone()), ("signed_header_2", sheader.clone())]);
    let att_slash = s.add("AttesterSlashing", vec![("attestation_1", indexed.clone()), ("attestation_2", indexed.clone())]);
    let attestation = if fork == Electra {
        s.add(
            "Attestation",
            vec![
                ("aggregation_bits", BitL(vpc * z.max_committees)),
                ("data", att_data.clone()),
                ("committee_bits", BitV(z.max_committees)),
                ("signature", sig.clone()),
            ],
        )
    } else {
        s.add("Attestation", vec![("aggregation_bits", BitL(vpc)), ("data", att_data.clone()), ("signature", sig.clone())])
    };
    if fork != Electra {
        let a = s.add("AggregateAndProof", vec![("aggregator_index", U64), ("aggregate", attestation.clone()), ("selection_proof", sig.clone())]);
        s.add("SignedAggregateAndProof", vec![("message", a), ("signature", sig.clone())]);
    }
    let deposit = s.add("Deposit", vec![("proof", v(&root, 33)), ("data", deposit_data.clone())]);
    let exit = s.add("VoluntaryExit", vec![("epoch", U64), ("validator_index", U64)]);
    let sexit = s.add("SignedVoluntaryExit", vec![("message", exit), ("signature", sig.clone())]);
    s.add("SigningData", vec![("object_root", root.clone()), ("domain", root.clone())]);
    if fork == Phase0 {
        s.add("MetaData", vec![("seq_number", U64), ("attnets", BitV(64))]);
    } else {
        s.add("MetaData", vec![("seq_number", U64), ("attnets", BitV(64)), ("syncnets", BitV(4))]);
    }
    let vr = s.add("ValidatorRegistration", vec![("fee_recipient", addr.clone()), ("gas_limit", U64), ("timestamp", U64), ("public_key", pk.clone())]);
    s.add("SignedValidatorRegistration", vec![("message", vr), ("signature", sig.clone())]);

    // altair
    let mut sync_agg = U8;
    let mut sync_com = U8;
    if fork >= Altair {
        sync_agg = s.add("SyncAggregate", vec![("sync_committee_bits", BitV(z.sync)), ("sync_committee_signature", sig.clone())]);
        sync_com = s.add("SyncCommittee", vec![("public_keys", v(&pk, z.sync)), ("aggregate_public_key", pk.clone())]);
        s.add("SyncCommitteeMessage", vec![("slot", U64), ("beacon_block_root", root.clone()), ("validator_index", U64), ("signature", sig.clone())]);
        if fork != Electra {
            let c = s.add(
                "SyncCommitteeContribution",
                vec![("slot", U64), ("beacon_block_root", root.clone()), ("subcommittee_index", U64), ("aggregation_bits", BitV(z.sync / 4)), ("signature", sig.clone())],
            );
            let cp = s.add("ContributionAndProof", vec![("aggregator_index", U64), ("contribution", c), ("selection_proof", sig.clone())]);
            s.add("SignedContributionAndProof", vec![("message", cp), ("signature", sig.clone())]);
        }
    }
    // bellatrix
    let mut payload = U8;
    let mut pheader = U8;
    let tx = BL(1 << 30);
    let mut withdrawal = U8;
    let mut sbtec = U8;
    let mut receipt = U8;
    let mut wreq = U8;
    let mut scons = U8;
    if fork >= Capella {
        withdrawal = s.add("Withdrawal", vec![("index", U64), ("validator_index", U64), ("address", addr.clone()), ("amount", U64)]);
        let b = s.add("BlsToExecutionChange", vec![("validator_index", U64), ("from_bls_public_key", pk.clone()), ("to_execution_address", addr.clone())]);
        sbtec = s.add("SignedBlsToExecutionChange", vec![("message", b), ("signature", sig.clone())]);
    }
    if fork == Electra {
        receipt = s.add(
            "DepositReceipt",
            vec![("public_key", pk.clone()), ("withdrawal_credentials", root.clone()), ("amount", U64), ("signature", sig.clone()), ("index", U64)],
        );
        wreq = s.add("ExecutionLayerWithdrawalRequest", vec![("source_address", addr.clone()), ("validator_public_key", pk.clone()), ("amount", U64)]);
        let c = s.add("Consolidation", vec![("source_index", U64), ("target_index", U64), ("epoch", U64)]);
        scons = s.add("SignedConsolidation", vec![("message", c), ("signature", sig.clone())]);
    }
    if fork >= Bellatrix {
        let common = vec![
            ("parent_hash", root.clone()),
            ("fee_recipient", addr.clone()),
            ("state_root", root.clone()),
            ("receipts_root", root.clone()),
            ("logs_bloom", BV(256)),
            ("prev_randao", root.clone()),
            ("block_number", U64),
            ("gas_limit", U64),
            ("gas_used", U64),
            ("timestamp", U64),
            ("extra_data", BL(32)),
            ("base_fee_per_gas", U256),
            ("block_hash", root.clone()),
        ];
        let mut p = common.clone();
        let mut h = common;
        p.push(("transactions", l(&tx, 1 << 20)));
        h.push(("transactions_root", root.clone()));
        if fork >= Capella {
            p.push(("withdrawals", l(&withdrawal, z.withdrawals)));
            h.push(("withdrawals_root", root.clone()));
        }
        if fork >= Deneb {
            for x in [&mut p, &mut h] {
                x.push(("blob_gas_used", U64));
                x.push(("excess_blob_gas", U64));
            }
        }
        if fork >= Electra {
            p.push(("deposit_receipts", l(&receipt, z.deposit_receipts)));
            p.push(("withdrawal_requests", l(&wreq, z.withdrawal_requests)));
            h.push(("deposit_receipts_root", root.clone()));
            h.push(("withdrawal_requests_root", root.clone()));
        }
        payload = s.add("ExecutionPayload", p);
        pheader = s.add("ExecutionPayloadHeader", h);
    }
    // bodies
    let (max_att_slash, max_atts) = if fork == Electra { (1, 8) } else { (2, 128) };
    let mut body = vec![
        ("randao_reveal", sig.clone()),
        ("eth1_data", eth1.clone()),
        ("graffiti", root.clone()),
        ("proposer_slashings", l(&prop_slash, 16)),
        ("attester_slashings", l(&att_slash, max_att_slash)),
        ("attestations", l(&attestation, max_atts)),
        ("deposits", l(&deposit, 16)),
        ("voluntary_exits", l(&sexit, 16)),
    ];
    if fork >= Altair {
        body.push(("sync_aggregate", sync_agg.clone()));
    }
    let mut blinded = body.clone();
    if fork >= Bellatrix {
        body.push(("execution_payload", payload.clone()));
        blinded.push(("execution_payload_header", pheader.clone()));
    }
    if fork >= Capella {
        for b in [&mut body, &mut blinded] {
            b.push(("bls_to_execution_changes", l(&sbtec, 16)));
        }
    }
    if fork >= Deneb {
        for b in [&mut body, &mut blinded] {
            b.push(("blob_kzg_commitments", l(&pk, z.blob_commitments)));
        }
    }
    if fork >= Electra {
        body.push(("consolidations", l(&scons, 1)));
    }
    let body = s.add("BeaconBlockBody", body);
    let blk = |b: &Ty| vec![("slot", U64), ("proposer_index", U64), ("parent_root", root.clone()), ("state_root", root.clone()), ("body", b.clone())];
    let block = s.add("BeaconBlock", blk(&body));
    s.add("SignedBeaconBlock", vec![("message", block), ("signature", sig.clone())]);
    if fork >= Bellatrix && fork != Electra {
        let b = s.add("BlindedBeaconBlockBody", blinded);
        let b = s.add("BlindedBeaconBlock", blk(&b));
        s.add("SignedBlindedBeaconBlock", vec![("message", b), ("signature", sig.clone())]);
    }
    // state
    let mut st = vec![
        ("genesis_time", U64),
        ("genesis_validators_root", root.clone()),
        ("slot", U64),
        ("fork", fork_t),
        ("latest_block_header", header.clone()),
        ("block_roots", v(&root, z.slots_per_hist_root)),
        ("state_roots", v(&root, z.slots_per_hist_root)),
        ("historical_roots", l(&root, 1 << 24)),
        ("eth1_data", eth1.clone()),
        ("eth1_data_votes", l(&eth1, z.eth1_votes)),
        ("eth1_deposit_index", U64),
        ("validators", l(&validator, REGISTRY)),
        ("balances", l(&U64, REGISTRY)),
        ("randao_mixes", v(&root, z.randao)),
        ("slashings", v(&U64, z.slashings)),
    ];
    if fork == Phase0 {
        st.push(("previous_epoch_attestations", l(&pending_att, z.pending_atts)));
        st.push(("current_epoch_attestations", l(&pending_att, z.pending_atts)));
    } else {
        st.push(("previous_epoch_participation", l(&U8, REGISTRY)));
        st.push(("current_epoch_participation", l(&U8, REGISTRY)));
    }
    st.extend([
        ("justification_bits", BitV(4)),
        ("previous_justified_checkpoint", checkpoint.clone()),
        ("current_justified_checkpoint", checkpoint.clone()),
        ("finalized_checkpoint", checkpoint.clone()),
    ]);
    if fork >= Altair {
        st.extend([
            ("inactivity_scores", l(&U64, REGISTRY)),
            ("current_sync_committee", sync_com.clone()),
            ("next_sync_committee", sync_com.clone()),
        ]);
    }
    if fork >= Bellatrix {
        st.push(("latest_execution_payload_header", pheader.clone()));
    }
    if fork >= Capella {
        st.extend([
            ("next_withdrawal_index", U64),
            ("next_withdrawal_validator_index", U64),
            ("historical_summaries", l(&hist_summary, 1 << 24)),
        ]);
    }
    if fork >= Electra {
        let pbd = s.add("PendingBalanceDeposit", vec![("index", U64), ("amount", U64)]);
        let ppw = s.add("PendingPartialWithdrawal", vec![("index", U64), ("amount", U64), ("withdrawable_epoch", U64)]);
        let pc = s.add("PendingConsolidation", vec![("source_index", U64), ("target_index", U64)]);
        st.extend([
            ("deposit_receipts_start_index", U64),
            ("deposit_balance_to_consume", U64),
            ("exit_balance_to_consume", U64),
            ("earliest_exit_epoch", U64),
            ("consolidation_balance_to_consume", U64),
            ("earliest_consolidation_epoch", U64),
            ("pending_balance_deposits", l(&pbd, z.pending_deposits)),
            ("pending_partial_withdrawals", l(&ppw, z.pending_partials)),
            ("pending_consolidations", l(&pc, z.pending_consolidations)),
        ]);
    }
    s.add("BeaconState", st);
    // light client
    if fork >= Altair && fork != Electra {
        let lch = if fork >= Capella {
            s.add("LightClientHeader", vec![("beacon", header.clone()), ("execution", pheader.clone()), ("execution_branch", v(&root, 4))])
        } else {
            s.add("LightClientHeader", vec![("beacon", header.clone())])
        };
        s.add("LightClientBootstrap", vec![("header", lch.clone()), ("current_sync_committee", sync_com.clone()), ("current_sync_committee_branch", v(&root, 5))]);
        s.add(
            "LightClientUpdate",
            vec![
                ("attested_header", lch.clone()),
                ("next_sync_committee", sync_com.clone()),
                ("next_sync_committee_branch", v(&root, 5)),
                ("finalized_header", lch.clone()),
                ("finality_branch", v(&root, 6)),
                ("sync_aggregate", sync_agg.clone()),
                ("signature_slot", U64),
            ],
        );
        s.add(
            "LightClientFinalityUpdate",
            vec![
                ("attested_header", lch.clone()),
                ("finalized_header", lch.clone()),
                ("finality_branch", v(&root, 6)),
                ("sync_aggregate", sync_agg.clone()),
                ("signature_slot", U64),
            ],
        );
        s.add("LightClientOptimisticUpdate", vec![("attested_header", lch), ("sync_aggregate", sync_agg.clone()), ("signature_slot", U64)]);
    }
    if fork == Deneb {
        s.add("BlobIdentifier", vec![("block_root", root.clone()), ("index", U64)]);
        s.add(
            "BlobSidecar",
            vec![
                ("index", U64),
                ("blob", BV(131072)),
                ("kzg_commitment", pk.clone()),
                ("kzg_proof", pk.clone()),
                ("signed_block_header", sheader),
                ("kzg_commitment_inclusion_proof", v(&root, z.kzg_depth)),
            ],
        );
    }
    s
}
