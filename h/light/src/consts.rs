//! C05: the parameters of every supported network and preset against independently recorded values.
//! C37: configuration files, fork schedule, genesis time.
use ethereum_consensus::{networks::Network, state_transition::Context, Fork};
use std::collections::BTreeMap;
use vcommon::*;

fn net(n: &Network) -> String {
    match n {
        Network::Custom(s) => format!("custom:{s}"),
        other => other.to_string(),
    }
}
pub fn dump(c: &Context) -> BTreeMap<&'static str, String> {
    let mut m = BTreeMap::new();
    m.insert("max_committees_per_slot", c.max_committees_per_slot.to_string());
    m.insert("target_committee_size", c.target_committee_size.to_string());
    m.insert("max_validators_per_committee", c.max_validators_per_committee.to_string());
    m.insert("shuffle_round_count", c.shuffle_round_count.to_string());
    m.insert("hysteresis_quotient", c.hysteresis_quotient.to_string());
    m.insert("hysteresis_downward_multiplier", c.hysteresis_downward_multiplier.to_string());
    m.insert("hysteresis_upward_multiplier", c.hysteresis_upward_multiplier.to_string());
    m.insert("min_deposit_amount", c.min_deposit_amount.to_string());
    m.insert("max_effective_balance", c.max_effective_balance.to_string());
    m.insert("effective_balance_increment", c.effective_balance_increment.to_string());
    m.insert("min_attestation_inclusion_delay", c.min_attestation_inclusion_delay.to_string());
    m.insert("slots_per_epoch", c.slots_per_epoch.to_string());
    m.insert("min_seed_lookahead", c.min_seed_lookahead.to_string());
    m.insert("max_seed_lookahead", c.max_seed_lookahead.to_string());
    m.insert("min_epochs_to_inactivity_penalty", c.min_epochs_to_inactivity_penalty.to_string());
    m.insert("epochs_per_eth1_voting_period", c.epochs_per_eth1_voting_period.to_string());
    m.insert("slots_per_historical_root", c.slots_per_historical_root.to_string());
    m.insert("epochs_per_historical_vector", c.epochs_per_historical_vector.to_string());
    m.insert("epochs_per_slashings_vector", c.epochs_per_slashings_vector.to_string());
    m.insert("historical_roots_limit", c.historical_roots_limit.to_string());
    m.insert("validator_registry_limit", c.validator_registry_limit.to_string());
    m.insert("base_reward_factor", c.base_reward_factor.to_string());
    m.insert("whistleblower_reward_quotient", c.whistleblower_reward_quotient.to_string());
    m.insert("proposer_reward_quotient", c.proposer_reward_quotient.to_string());
    m.insert("inactivity_penalty_quotient", c.inactivity_penalty_quotient.to_string());
    m.insert("min_slashing_penalty_quotient", c.min_slashing_penalty_quotient.to_string());
    m.insert("proportional_slashing_multiplier", c.proportional_slashing_multiplier.to_string());
    m.insert("max_proposer_slashings", c.max_proposer_slashings.to_string());
    m.insert("max_attester_slashings", c.max_attester_slashings.to_string());
    m.insert("max_attestations", c.max_attestations.to_string());
    m.insert("max_deposits", c.max_deposits.to_string());
    m.insert("max_voluntary_exits", c.max_voluntary_exits.to_string());
    m.insert("inactivity_penalty_quotient_altair", c.inactivity_penalty_quotient_altair.to_string());
    m.insert("min_slashing_penalty_quotient_altair", c.min_slashing_penalty_quotient_altair.to_string());
    m.insert("proportional_slashing_multiplier_altair", c.proportional_slashing_multiplier_altair.to_string());
    m.insert("sync_committee_size", c.sync_committee_size.to_string());
    m.insert("epochs_per_sync_committee_period", c.epochs_per_sync_committee_period.to_string());
    m.insert("min_sync_committee_participants", c.min_sync_committee_participants.to_string());
    m.insert("update_timeout", c.update_timeout.to_string());
    m.insert("inactivity_penalty_quotient_bellatrix", c.inactivity_penalty_quotient_bellatrix.to_string());
    m.insert("min_slashing_penalty_quotient_bellatrix", c.min_slashing_penalty_quotient_bellatrix.to_string());
    m.insert("proportional_slashing_multiplier_bellatrix", c.proportional_slashing_multiplier_bellatrix.to_string());
    m.insert("max_bytes_per_transaction", c.max_bytes_per_transaction.to_string());
    m.insert("max_transactions_per_payload", c.max_transactions_per_payload.to_string());
    m.insert("bytes_per_logs_bloom", c.bytes_per_logs_bloom.to_string());
    m.insert("max_extra_data_bytes", c.max_extra_data_bytes.to_string());
    m.insert("max_bls_to_execution_changes", c.max_bls_to_execution_changes.to_string());
    m.insert("max_withdrawals_per_payload", c.max_withdrawals_per_payload.to_string());
    m.insert("max_validators_per_withdrawals_sweep", c.max_validators_per_withdrawals_sweep.to_string());
    m.insert("field_elements_per_blob", c.field_elements_per_blob.to_string());
    m.insert("max_blob_commitments_per_block", c.max_blob_commitments_per_block.to_string());
    m.insert("max_blobs_per_block", c.max_blobs_per_block.to_string());
    m.insert("min_activation_balance", c.min_activation_balance.to_string());
    m.insert("max_effective_balance_electra", c.max_effective_balance_electra.to_string());
    m.insert("min_slashing_penalty_quotient_electra", c.min_slashing_penalty_quotient_electra.to_string());
    m.insert("whistleblower_reward_quotient_electra", c.whistleblower_reward_quotient_electra.to_string());
    m.insert("pending_balance_deposits_limit", c.pending_balance_deposits_limit.to_string());
    m.insert("pending_partial_withdrawals_limit", c.pending_partial_withdrawals_limit.to_string());
    m.insert("pending_consolidations_limit", c.pending_consolidations_limit.to_string());
    m.insert("max_attester_slashings_electra", c.max_attester_slashings_electra.to_string());
    m.insert("max_attestations_electra", c.max_attestations_electra.to_string());
    m.insert("max_consolidations", c.max_consolidations.to_string());
    m.insert("max_deposit_receipts_per_payload", c.max_deposit_receipts_per_payload.to_string());
    m.insert("max_withdrawal_requests_per_payload", c.max_withdrawal_requests_per_payload.to_string());
    m.insert("max_pending_partials_per_withdrawals_sweep", c.max_pending_partials_per_withdrawals_sweep.to_string());
    m.insert("terminal_block_hash", format!("{:?}", c.terminal_block_hash));
    m.insert("terminal_block_hash_activation_epoch", c.terminal_block_hash_activation_epoch.to_string());
    m.insert("min_genesis_active_validator_count", c.min_genesis_active_validator_count.to_string());
    m.insert("seconds_per_slot", c.seconds_per_slot.to_string());
    m.insert("seconds_per_eth1_block", c.seconds_per_eth1_block.to_string());
    m.insert("min_validator_withdrawability_delay", c.min_validator_withdrawability_delay.to_string());
    m.insert("shard_committee_period", c.shard_committee_period.to_string());
    m.insert("eth1_follow_distance", c.eth1_follow_distance.to_string());
    m.insert("inactivity_score_bias", c.inactivity_score_bias.to_string());
    m.insert("inactivity_score_recovery_rate", c.inactivity_score_recovery_rate.to_string());
    m.insert("ejection_balance", c.ejection_balance.to_string());
    m.insert("min_per_epoch_churn_limit", c.min_per_epoch_churn_limit.to_string());
    m.insert("max_per_epoch_activation_churn_limit", c.max_per_epoch_activation_churn_limit.to_string());
    m.insert("min_per_epoch_churn_limit_electra", c.min_per_epoch_churn_limit_electra.to_string());
    m.insert("max_per_epoch_activation_exit_churn_limit", c.max_per_epoch_activation_exit_churn_limit.to_string());
    m.insert("churn_limit_quotient", c.churn_limit_quotient.to_string());
    m.insert("proposer_score_boost", c.proposer_score_boost.to_string());
    m.insert("electra_fork_epoch", c.electra_fork_epoch.to_string());
    m.insert("name", net(&c.name));
    m.insert("terminal_total_difficulty", c.terminal_total_difficulty.to_string());
    m.insert("min_genesis_time", c.min_genesis_time.to_string());
    m.insert("genesis_delay", c.genesis_delay.to_string());
    m.insert("deposit_chain_id", c.deposit_chain_id.to_string());
    m.insert("deposit_network_id", c.deposit_network_id.to_string());
    m.insert("deposit_contract_address", format!("{:?}", c.deposit_contract_address));
    m.insert("genesis_fork_version", hexs(&c.genesis_fork_version));
    m.insert("altair_fork_version", hexs(&c.altair_fork_version));
    m.insert("bellatrix_fork_version", hexs(&c.bellatrix_fork_version));
    m.insert("capella_fork_version", hexs(&c.capella_fork_version));
    m.insert("deneb_fork_version", hexs(&c.deneb_fork_version));
    m.insert("electra_fork_version", hexs(&c.electra_fork_version));
    m.insert("altair_fork_epoch", c.altair_fork_epoch.to_string());
    m.insert("bellatrix_fork_epoch", c.bellatrix_fork_epoch.to_string());
    m.insert("capella_fork_epoch", c.capella_fork_epoch.to_string());
    m.insert("deneb_fork_epoch", c.deneb_fork_epoch.to_string());
    m
}
pub fn contexts() -> Vec<(&'static str, Context)> {
    vec![
        ("mainnet", Context::for_mainnet()),
        ("minimal", Context::for_minimal()),
        ("goerli", Context::for_goerli()),
        ("sepolia", Context::for_sepolia()),
        ("holesky", Context::for_holesky()),
        ("hoodi", Context::for_hoodi()),
    ]
}
fn tables() -> BTreeMap<String, BTreeMap<String, String>> {
    serde_json::from_str(include_str!("../data/networks.json")).unwrap()
}

pub fn parameters(mut r: Run) {
    r.rule("one parameter of one network or preset compared with its published value, distinct by (network, parameter)");
    r.floor("parameters compared", 600);
    let t = tables();
    for (name, ctx) in contexts() {
        let want = &t[name];
        for (k, got) in dump(&ctx) {
            let w = &want[k];
            r.eval(&(name, k), true);
            r.count("parameters compared", 1);
            r.check(&got == w, &format!("{name}: {k}"), || json!({"network": name, "parameter": k, "observed": got, "expected": w}));
        }
        if name == "hoodi" || name == "minimal" {
            r.sample(json!({"network": name, "fork versions": [hexs(&ctx.genesis_fork_version), hexs(&ctx.electra_fork_version)]}));
        }
    }
    exported(&mut r);
    modules(&mut r, &t);
    r.finish()
}

/// constants that are exported directly rather than through a network context
fn exported(r: &mut Run) {
    use ethereum_consensus::{altair, bellatrix, capella, clock, crypto::kzg, deneb, electra, networking, phase0, primitives as p};
    macro_rules! c {
        ($($path:expr => $want:expr),* $(,)?) => {$(
            r.eval(&stringify!($path), true);
            r.count("parameters compared", 1);
            r.check(($path as u128) == ($want as u128), concat!("constant ", stringify!($path)), || json!({"constant": stringify!($path), "observed": ($path as u128).to_string(), "expected": ($want as u128).to_string()}));
        )*};
    }
    c! {
        p::GENESIS_SLOT => 0, p::GENESIS_EPOCH => 0, p::FAR_FUTURE_EPOCH => u64::MAX,
        p::BLS_WITHDRAWAL_PREFIX => 0, p::ETH1_ADDRESS_WITHDRAWAL_PREFIX => 1, p::COMPOUNDING_WITHDRAWAL_PREFIX => 2,
        phase0::BASE_REWARDS_PER_EPOCH => 4, phase0::DEPOSIT_CONTRACT_TREE_DEPTH => 32, phase0::JUSTIFICATION_BITS_LENGTH => 4,
        altair::constants::TIMELY_SOURCE_FLAG_INDEX => 0, altair::constants::TIMELY_TARGET_FLAG_INDEX => 1, altair::constants::TIMELY_HEAD_FLAG_INDEX => 2,
        altair::constants::TIMELY_SOURCE_WEIGHT => 14, altair::constants::TIMELY_TARGET_WEIGHT => 26, altair::constants::TIMELY_HEAD_WEIGHT => 14,
        altair::constants::SYNC_REWARD_WEIGHT => 2, altair::constants::PROPOSER_WEIGHT => 8, altair::constants::WEIGHT_DENOMINATOR => 64,
        altair::constants::PARTICIPATION_FLAG_WEIGHTS[0] => 14, altair::constants::PARTICIPATION_FLAG_WEIGHTS[1] => 26, altair::constants::PARTICIPATION_FLAG_WEIGHTS[2] => 14,
        altair::constants::SYNC_COMMITTEE_SUBNET_COUNT => 4,
        electra::UNSET_DEPOSIT_RECEIPTS_START_INDEX => u64::MAX, electra::FULL_EXIT_REQUEST_AMOUNT => 0,
        phase0::mainnet::SLOTS_PER_EPOCH => 32, phase0::minimal::SLOTS_PER_EPOCH => 8,
        phase0::mainnet::ETH1_DATA_VOTES_BOUND => 2048, phase0::minimal::ETH1_DATA_VOTES_BOUND => 32,
        phase0::mainnet::PENDING_ATTESTATIONS_BOUND => 4096, phase0::minimal::PENDING_ATTESTATIONS_BOUND => 1024,
        phase0::mainnet::VALIDATOR_REGISTRY_LIMIT => 1u64 << 40, phase0::mainnet::HISTORICAL_ROOTS_LIMIT => 1 << 24,
        phase0::mainnet::RANDOM_SUBNETS_PER_VALIDATOR => 1, phase0::minimal::RANDOM_SUBNETS_PER_VALIDATOR => 1,
        phase0::mainnet::EPOCHS_PER_RANDOM_SUBNET_SUBSCRIPTION => 256, phase0::minimal::EPOCHS_PER_RANDOM_SUBNET_SUBSCRIPTION => 256,
        phase0::mainnet::TARGET_AGGREGATORS_PER_COMMITTEE => 16, phase0::minimal::TARGET_AGGREGATORS_PER_COMMITTEE => 16,
        altair::mainnet::SYNC_COMMITTEE_SIZE => 512, altair::minimal::SYNC_COMMITTEE_SIZE => 32,
        altair::mainnet::SYNC_SUBCOMMITTEE_SIZE => 128, altair::minimal::SYNC_SUBCOMMITTEE_SIZE => 8,
        altair::mainnet::TARGET_AGGREGATORS_PER_SYNC_SUBCOMMITTEE => 16, altair::minimal::TARGET_AGGREGATORS_PER_SYNC_SUBCOMMITTEE => 16,
        bellatrix::mainnet::MAX_BYTES_PER_TRANSACTION => 1u64 << 30, bellatrix::mainnet::MAX_TRANSACTIONS_PER_PAYLOAD => 1 << 20,
        bellatrix::mainnet::BYTES_PER_LOGS_BLOOM => 256, bellatrix::mainnet::MAX_EXTRA_DATA_BYTES => 32,
        capella::mainnet::MAX_WITHDRAWALS_PER_PAYLOAD => 16, capella::minimal::MAX_WITHDRAWALS_PER_PAYLOAD => 4,
        deneb::mainnet::BYTES_PER_BLOB => 131072, deneb::minimal::BYTES_PER_BLOB => 131072,
        deneb::mainnet::MAX_BLOBS_PER_BLOCK => 6, deneb::minimal::MAX_BLOBS_PER_BLOCK => 6,
        deneb::mainnet::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH => 17, deneb::minimal::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH => 9,
        deneb::mainnet::MAX_REQUEST_BLOB_SIDECARS => 768, deneb::minimal::MAX_REQUEST_BLOB_SIDECARS => 768,
        clock::MAINNET_GENESIS_TIME => 1606824023u64, clock::SEPOLIA_GENESIS_TIME => 1655733600u64,
        clock::GOERLI_GENESIS_TIME => 1616508000u64, clock::HOLESKY_GENESIS_TIME => 1695902400u64,
        phase0::networking::ATTESTATION_SUBNET_COUNT => 64,
        phase0::constants::DEPOSIT_DATA_LIST_BOUND => 1u64 << 32,
        phase0::networking::GOSSIP_MAX_SIZE => 1 << 20, phase0::networking::MAX_CHUNK_SIZE => 1 << 20,
        phase0::networking::MAX_REQUEST_BLOCKS => 1024, phase0::networking::MIN_EPOCHS_FOR_BLOCK_REQUESTS => 33024,
        phase0::networking::TTFB_TIMEOUT.as_millis() => 5_000, phase0::networking::RESP_TIMEOUT.as_millis() => 10_000,
        phase0::networking::ATTESTATION_PROPAGATION_SLOT_RANGE => 32,
        phase0::networking::MAXIMUM_GOSSIP_CLOCK_DISPARITY.as_millis() => 500,
        bellatrix::networking::GOSSIP_MAX_SIZE_BELLATRIX => 10_485_760, bellatrix::networking::MAX_CHUNK_SIZE_BELLATRIX => 10_485_760,
        deneb::networking::MAX_REQUEST_BLOCKS_DENEB => 128, deneb::networking::MIN_EPOCHS_FOR_BLOB_SIDECARS_REQUESTS => 4096,
        deneb::networking::BLOB_SIDECAR_SUBNET_COUNT => 6, deneb::networking::MAX_REQUEST_BLOB_SIDECARS => 768,
        deneb::blob_sidecar::VERSIONED_HASH_VERSION_KZG => 1,
        networking::MAX_INLINE_KEY_LENGTH => 42,
        altair::light_client::FINALIZED_ROOT_INDEX => 105, altair::light_client::FINALIZED_ROOT_INDEX_FLOOR_LOG_2 => 6,
        altair::light_client::CURRENT_SYNC_COMMITTEE_INDEX => 54, altair::light_client::CURRENT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2 => 5,
        altair::light_client::NEXT_SYNC_COMMITTEE_INDEX => 55, altair::light_client::NEXT_SYNC_COMMITTEE_INDEX_FLOOR_LOG_2 => 5,
        capella::light_client::EXECUTION_PAYLOAD_INDEX => 25, capella::light_client::EXECUTION_PAYLOAD_INDEX_FLOOR_LOG_2 => 4,
        kzg::BYTES_PER_FIELD_ELEMENT => 32, kzg::BYTES_PER_COMMITMENT => 48, kzg::BYTES_PER_PROOF => 48,
        kzg::BYTES_PER_G1_POINT => 48, kzg::BYTES_PER_G2_POINT => 96,
    }
}

/// the constants behind the contexts, as the modules of the networks and presets export them
fn modules(r: &mut Run, t: &BTreeMap<String, BTreeMap<String, String>>) {
    macro_rules! one {
        ($name:expr, $m:path, $c:ident, $got:expr) => {{
            let want = &t[$name][&stringify!($c).to_lowercase()];
            let got: String = $got;
            r.eval(&(stringify!($m), stringify!($c)), true);
            r.count("parameters compared", 1);
            r.check(&got == want, concat!("constant ", stringify!($m), "::", stringify!($c)), || {
                json!({"module": stringify!($m), "constant": stringify!($c), "observed": got, "expected": want})
            });
        }};
    }
    macro_rules! all {
        ($name:expr, $m:path, numbers [$($c:ident)*], versions [$($v:ident)*]) => {{
            use $m as m;
            $(one!($name, $m, $c, m::$c.to_string());)*
            $(one!($name, $m, $v, hexs(&m::$v));)*
        }};
    }
    macro_rules! config {
        ($name:expr, $m:path) => {
            all!($name, $m, numbers [
                 MIN_GENESIS_ACTIVE_VALIDATOR_COUNT MIN_GENESIS_TIME GENESIS_DELAY SECONDS_PER_SLOT SECONDS_PER_ETH1_BLOCK
                 MIN_VALIDATOR_WITHDRAWABILITY_DELAY SHARD_COMMITTEE_PERIOD ETH1_FOLLOW_DISTANCE EJECTION_BALANCE
                 MIN_PER_EPOCH_CHURN_LIMIT MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT CHURN_LIMIT_QUOTIENT
                 MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT
                 TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH ALTAIR_FORK_EPOCH BELLATRIX_FORK_EPOCH CAPELLA_FORK_EPOCH
                 DENEB_FORK_EPOCH ELECTRA_FORK_EPOCH INACTIVITY_SCORE_BIAS INACTIVITY_SCORE_RECOVERY_RATE PROPOSER_SCORE_BOOST
                 DEPOSIT_CHAIN_ID DEPOSIT_NETWORK_ID
            ], versions [
                 GENESIS_FORK_VERSION ALTAIR_FORK_VERSION BELLATRIX_FORK_VERSION CAPELLA_FORK_VERSION DENEB_FORK_VERSION
                 ELECTRA_FORK_VERSION
            ])
        };
    }
    config!("mainnet", ethereum_consensus::configs::mainnet);
    config!("goerli", ethereum_consensus::configs::goerli);
    config!("sepolia", ethereum_consensus::configs::sepolia);
    config!("holesky", ethereum_consensus::configs::holesky);
    config!("hoodi", ethereum_consensus::configs::hoodi);
    config!("minimal", ethereum_consensus::configs::minimal);
    macro_rules! phase0 {
        ($name:expr, $m:path) => {
            all!($name, $m, numbers [
                 MAX_COMMITTEES_PER_SLOT TARGET_COMMITTEE_SIZE MAX_VALIDATORS_PER_COMMITTEE SHUFFLE_ROUND_COUNT
                 HYSTERESIS_QUOTIENT HYSTERESIS_DOWNWARD_MULTIPLIER HYSTERESIS_UPWARD_MULTIPLIER MIN_DEPOSIT_AMOUNT
                 MAX_EFFECTIVE_BALANCE EFFECTIVE_BALANCE_INCREMENT MIN_ATTESTATION_INCLUSION_DELAY SLOTS_PER_EPOCH
                 MIN_SEED_LOOKAHEAD MAX_SEED_LOOKAHEAD MIN_EPOCHS_TO_INACTIVITY_PENALTY EPOCHS_PER_ETH1_VOTING_PERIOD
                 SLOTS_PER_HISTORICAL_ROOT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR HISTORICAL_ROOTS_LIMIT
                 VALIDATOR_REGISTRY_LIMIT BASE_REWARD_FACTOR WHISTLEBLOWER_REWARD_QUOTIENT PROPOSER_REWARD_QUOTIENT
                 INACTIVITY_PENALTY_QUOTIENT MIN_SLASHING_PENALTY_QUOTIENT PROPORTIONAL_SLASHING_MULTIPLIER
                 MAX_PROPOSER_SLASHINGS MAX_ATTESTER_SLASHINGS MAX_ATTESTATIONS MAX_DEPOSITS MAX_VOLUNTARY_EXITS
            ], versions [])
        };
    }
    phase0!("mainnet", ethereum_consensus::phase0::presets::mainnet);
    phase0!("minimal", ethereum_consensus::phase0::presets::minimal);
    macro_rules! altair {
        ($name:expr, $m:path) => {
            all!($name, $m, numbers [
                 INACTIVITY_PENALTY_QUOTIENT_ALTAIR MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR
                 PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR SYNC_COMMITTEE_SIZE EPOCHS_PER_SYNC_COMMITTEE_PERIOD
                 MIN_SYNC_COMMITTEE_PARTICIPANTS UPDATE_TIMEOUT
            ], versions [])
        };
    }
    altair!("mainnet", ethereum_consensus::altair::presets::mainnet);
    altair!("minimal", ethereum_consensus::altair::presets::minimal);
    macro_rules! bellatrix {
        ($name:expr, $m:path) => {
            all!($name, $m, numbers [
                 INACTIVITY_PENALTY_QUOTIENT_BELLATRIX MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX
                 PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX MAX_BYTES_PER_TRANSACTION MAX_TRANSACTIONS_PER_PAYLOAD
                 BYTES_PER_LOGS_BLOOM MAX_EXTRA_DATA_BYTES
            ], versions [])
        };
    }
    bellatrix!("mainnet", ethereum_consensus::bellatrix::presets::mainnet);
    bellatrix!("minimal", ethereum_consensus::bellatrix::presets::minimal);
    macro_rules! capella {
        ($name:expr, $m:path) => {
            all!($name, $m, numbers [
                 MAX_WITHDRAWALS_PER_PAYLOAD MAX_BLS_TO_EXECUTION_CHANGES MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP
            ], versions [])
        };
    }
    capella!("mainnet", ethereum_consensus::capella::presets::mainnet);
    capella!("minimal", ethereum_consensus::capella::presets::minimal);
    macro_rules! deneb {
        ($name:expr, $m:path) => {
            all!($name, $m, numbers [
                 FIELD_ELEMENTS_PER_BLOB MAX_BLOB_COMMITMENTS_PER_BLOCK MAX_BLOBS_PER_BLOCK
            ], versions [])
        };
    }
    deneb!("mainnet", ethereum_consensus::deneb::presets::mainnet);
    deneb!("minimal", ethereum_consensus::deneb::presets::minimal);
    macro_rules! electra {
        ($name:expr, $m:path) => {
            all!($name, $m, numbers [
                 MIN_ACTIVATION_BALANCE MAX_EFFECTIVE_BALANCE_ELECTRA MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA
                 WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA PENDING_BALANCE_DEPOSITS_LIMIT PENDING_PARTIAL_WITHDRAWALS_LIMIT
                 PENDING_CONSOLIDATIONS_LIMIT MAX_ATTESTER_SLASHINGS_ELECTRA MAX_ATTESTATIONS_ELECTRA MAX_CONSOLIDATIONS
                 MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD
                 MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP
            ], versions [])
        };
    }
    electra!("mainnet", ethereum_consensus::electra::presets::mainnet);
    electra!("minimal", ethereum_consensus::electra::presets::minimal);
}

pub fn configuration(mut r: Run) {
    r.rule("one configuration file loaded, or one (schedule, slot) resolved to a fork, distinct by contents; \
            near-boundary slots are always included");
    r.floor("configuration files loaded", 50);
    r.floor("malformed configuration files offered", 50);
    r.floor("fork lookups at an activation boundary", 200);
    let mut rng = r.rng.clone();
    genesis(&mut r);
    let dir = std::env::temp_dir().join(format!("verif-config-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let t = tables();
    let max = if r.quick() { 6000 } else { u64::MAX };
    let mut n = 0;
    while r.time_left() && n < max {
        n += 1;
        load_one(&mut r, &mut rng, &dir, &t);
        schedule(&mut r, &mut rng);
    }
    let _ = std::fs::remove_dir_all(&dir);
    r.finish()
}

fn genesis(r: &mut Run) {
    for (name, ctx) in contexts() {
        let want = match name {
            "mainnet" => Some(1606824023u64),
            "sepolia" => Some(1655733600),
            "goerli" => Some(1616508000),
            "holesky" => Some(1695902400),
            _ => None,
        };
        let got = guard(|| ctx.genesis_time().ok());
        r.eval(&("genesis", name), true);
        if let Some(w) = want {
            r.check(got == Ok(Some(w)), "genesis time", || json!({"network": name, "observed": format!("{got:?}")}));
            let clk = guard(|| ctx.clock().map(|c| (c.timestamp_at_slot(0), c.timestamp_at_slot(100), c.epoch_for(3200))));
            let wc = Some((w, w + 1200, 100));
            r.check(clk == Ok(wc), "network clock", || json!({"network": name, "observed": format!("{clk:?}")}));
        } else if name == "minimal" {
            r.check(got == Ok(None) && ctx.clock().is_none(), "custom network has no known genesis", || json!({"observed": format!("{got:?}")}));
        }
        for g in [0u64, 1, 1_700_000_001] {
            let c = ctx.clock_at(g);
            let (sps, spe) = if name == "minimal" { (6, 8) } else { (12, 32) };
            let obs = (c.timestamp_at_slot(7), c.epoch_for(spe * 5 + spe - 1), c.slot_at_time((g as u128 + 3 * sps as u128) * 1_000_000_000));
            r.check(obs == (g + 7 * sps, 5, Some(3)), "clock for a genesis time", || json!({"network": name, "genesis": g, "observed": format!("{obs:?}")}));
        }
    }
}

fn schedule(r: &mut Run, rng: &mut Rng) {
    let mut ctx = if rng.chance(1, 2) { Context::for_mainnet() } else { Context::for_minimal() };
    let spe = ctx.slots_per_epoch;
    let mut e = [0u64; 5];
    let mut cur = 0u64;
    for x in e.iter_mut() {
        cur = match rng.below(5) {
            0 => cur,
            1 => u64::MAX,
            2 => cur.saturating_add(1),
            _ => cur.saturating_add(rng.below(100_000)),
        };
        *x = cur;
    }
    ctx.altair_fork_epoch = e[0];
    ctx.bellatrix_fork_epoch = e[1];
    ctx.capella_fork_epoch = e[2];
    ctx.deneb_fork_epoch = e[3];
    ctx.electra_fork_epoch = e[4];
    let mut slots = vec![0, u64::MAX, rng.edgy()];
    for x in e {
        if let Some(s) = x.checked_mul(spe) {
            slots.extend([s.saturating_sub(1), s, s.saturating_add(1), s.saturating_add(spe - 1)]);
            r.count("fork lookups at an activation boundary", 2);
        }
    }
    for s in slots {
        let k = e.iter().filter(|x| **x <= s / spe).count();
        let want = super::names::FORKS[k];
        let got = guard(|| ctx.fork_for(s).to_string());
        r.eval(&("fork_for", e, s, spe), s > 0);
        r.check(got == Ok(want.1.to_string()), "fork in force at a slot", || json!({"activation_epochs": e, "slot": s, "slots_per_epoch": spe, "observed": format!("{got:?}"), "expected": want.1}));
    }
    let vs = [ctx.genesis_fork_version, ctx.altair_fork_version, ctx.bellatrix_fork_version, ctx.capella_fork_version, ctx.deneb_fork_version, ctx.electra_fork_version];
    for (i, (f, n)) in super::names::FORKS.iter().enumerate() {
        let got = ctx.fork_version_for(*f);
        r.check(got == vs[i], "fork version", || json!({"fork": n, "observed": got, "expected": vs[i]}));
    }
    let _: Fork = super::names::FORKS[0].0;
}

/// keys of the configuration file: (file key, context field, kind)
fn keys() -> Vec<(String, &'static str, u8)> {
    let mut v: Vec<(String, &'static str, u8)> = vec![
        ("TERMINAL_TOTAL_DIFFICULTY".into(), "terminal_total_difficulty", 3),
        ("TERMINAL_BLOCK_HASH".into(), "terminal_block_hash", 32),
        ("DEPOSIT_CONTRACT_ADDRESS".into(), "deposit_contract_address", 20),
    ];
    for f in ["genesis_fork_version", "altair_fork_version", "bellatrix_fork_version", "capella_fork_version", "deneb_fork_version", "electra_fork_version"] {
        v.push((f.to_uppercase(), f, 4));
    }
    for f in [
        "terminal_block_hash_activation_epoch", "min_genesis_active_validator_count", "min_genesis_time", "genesis_delay", "altair_fork_epoch",
        "bellatrix_fork_epoch", "capella_fork_epoch", "deneb_fork_epoch", "electra_fork_epoch", "seconds_per_slot", "seconds_per_eth1_block",
        "min_validator_withdrawability_delay", "shard_committee_period", "eth1_follow_distance", "inactivity_score_bias",
        "inactivity_score_recovery_rate", "ejection_balance", "min_per_epoch_churn_limit", "max_per_epoch_activation_churn_limit",
        "churn_limit_quotient", "min_per_epoch_churn_limit_electra", "max_per_epoch_activation_exit_churn_limit", "proposer_score_boost",
        "deposit_chain_id", "deposit_network_id",
    ] {
        v.push((f.to_uppercase(), f, 0));
    }
    v
}

fn load_one(r: &mut Run, rng: &mut Rng, dir: &std::path::Path, t: &BTreeMap<String, BTreeMap<String, String>>) {
    let base = *rng.pick(&["mainnet", "minimal"]);
    let cname = *rng.pick(&["mainnet", "sepolia", "devnet-7", "holesky"]);
    let mut want: BTreeMap<&str, String> = BTreeMap::new();
    let mut lines = vec![];
    for (key, field, kind) in keys() {
        let (val, w) = match kind {
            0 => {
                let x = if rng.chance(1, 3) { rng.edgy() } else { rng.below(1 << 30) };
                (x.to_string(), x.to_string())
            }
            3 => {
                let x = (rng.u64() as u128) << rng.below(60);
                (x.to_string(), x.to_string())
            }
            n => {
                let b = rng.bytes(n as usize);
                let s = hexs(&b);
                (if rng.chance(1, 3) { format!("'{s}'") } else { s.clone() }, s)
            }
        };
        want.insert(field, w);
        lines.push((key, val));
    }
    rng.shuffle(&mut lines);
    let mut text = String::from("# devnet configuration\n\n");
    let head = [format!("PRESET_BASE: '{base}'\n"), format!("CONFIG_NAME: \"{cname}\"\n")];
    let quirk = rng.below(6);
    let mut bad = None;
    let drop = rng.idx(lines.len());
    for (i, (k, v)) in lines.iter().enumerate() {
        if i == lines.len() / 2 {
            text += &head[0];
            if quirk != 5 {
                text += &head[1];
            } else {
                bad = Some("missing CONFIG_NAME".to_string());
            }
        }
        if quirk == 4 && i == drop {
            match rng.below(3) {
                0 => {
                    bad = Some(format!("missing {k}"));
                    continue;
                }
                1 => {
                    bad = Some(format!("text in {k}"));
                    text += &format!("{k}: 'not a value'\n");
                    continue;
                }
                _ => {
                    bad = Some(format!("negative {k}"));
                    text += &format!("{k}: -5\n");
                    continue;
                }
            }
        }
        text += &format!("{k}: {v}{}\n", if rng.chance(1, 8) { "  # a comment" } else { "" });
        if rng.chance(1, 10) {
            text += &format!("UNKNOWN_FUTURE_KEY_{i}: 17\n\n");
        }
    }
    if quirk == 3 {
        let other = *rng.pick(&["Mainnet", "gnosis", "", "minimal "]);
        text = text.replace(&head[0], &format!("PRESET_BASE: '{other}'\n"));
        bad = Some(format!("preset {other:?}"));
    }
    let path = dir.join("config.yaml");
    std::fs::write(&path, &text).unwrap();
    let via_network = rng.chance(1, 2);
    let got = guard(|| {
        let c = if via_network {
            Context::try_from(Network::Custom(dir.to_str().unwrap().to_string()))
        } else {
            Context::try_from_file(&path)
        };
        c.map(|c| dump(&c)).map_err(|e| e.to_string())
    });
    r.eval(&text, true);
    if let Some(why) = bad {
        r.count("malformed configuration files offered", 1);
        r.check(matches!(got, Ok(Err(_))), "malformed configuration accepted", || json!({"why": why, "file": text, "observed": format!("{:?}", got.as_ref().map(|x| x.is_ok()))}));
        return;
    }
    r.count("configuration files loaded", 1);
    want.insert("name", if cname == "devnet-7" { "custom:devnet-7".into() } else { cname.into() });
    let got = match got {
        Ok(Ok(m)) => m,
        other => {
            r.violation("valid configuration rejected", json!({"file": text, "observed": format!("{:?}", other.map(|x| x.map(|_| ())))}));
            return;
        }
    };
    for (k, v) in &got {
        let w = want.get(k).unwrap_or_else(|| &t[base][*k]);
        r.check(v == w, &format!("loaded parameter {k}"), || json!({"parameter": k, "observed": v, "expected": w, "preset": base, "file": text}));
    }
}
