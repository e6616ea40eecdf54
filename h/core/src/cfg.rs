//! Reference configuration: preset and network constants written from the consensus specs, plus
//! randomization of the configurable part.
use crate::schema::{Fork, Preset};
use vcommon::Rng;

pub const FAR: u64 = u64::MAX;
pub const GWEI: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub preset: Preset,
    pub max_committees: u64,
    pub target_committee: u64,
    pub shuffle_rounds: u64,
    pub hyst_q: u64,
    pub hyst_down: u64,
    pub hyst_up: u64,
    pub max_eb: u64,
    pub ebi: u64,
    pub min_att_delay: u64,
    pub spe: u64,
    pub min_seed: u64,
    pub max_seed: u64,
    pub min_inactivity: u64,
    pub eth1_period: u64,
    pub sphr: u64,
    pub ephv: u64,
    pub epsv: u64,
    pub base_factor: u64,
    pub whistle_q: u64,
    pub prop_q: u64,
    pub inact_q: [u64; 3],
    pub min_slash_q: [u64; 3],
    pub slash_mult: [u64; 3],
    pub max_deposits: u64,
    pub sync_size: usize,
    pub sync_period: u64,
    pub max_withdrawals: usize,
    pub sweep: usize,
    pub max_blobs: usize,
    pub min_act_bal: u64,
    pub max_eb_electra: u64,
    pub min_slash_q_electra: u64,
    pub whistle_q_electra: u64,
    pub partial_limit: usize,
    pub consolidation_limit: usize,
    pub max_partials_sweep: usize,
    // config
    pub min_genesis_validators: u64,
    pub min_genesis_time: u64,
    pub genesis_delay: u64,
    pub versions: [[u8; 4]; 6],
    pub epochs: [u64; 6],
    pub sps: u64,
    pub wd_delay: u64,
    pub shard_period: u64,
    pub inact_bias: u64,
    pub inact_recovery: u64,
    pub ejection: u64,
    pub min_churn: u64,
    pub max_act_churn: u64,
    pub min_churn_electra: u64,
    pub max_act_exit_churn: u64,
    pub churn_q: u64,
    pub engine_ok: bool,
}
impl Cfg {
    pub fn new(preset: Preset) -> Self {
        let m = preset == Preset::Minimal;
        let p = |a: u64, b: u64| if m { a } else { b };
        let tail = m as u8;
        let mut versions = [[0, 0, 0, tail]; 6];
        for (i, v) in versions.iter_mut().enumerate() {
            v[0] = i as u8;
        }
        Self {
            preset,
            max_committees: p(4, 64),
            target_committee: p(4, 128),
            shuffle_rounds: p(10, 90),
            hyst_q: 4,
            hyst_down: 1,
            hyst_up: 5,
            max_eb: 32 * GWEI,
            ebi: GWEI,
            min_att_delay: 1,
            spe: p(8, 32),
            min_seed: 1,
            max_seed: 4,
            min_inactivity: 4,
            eth1_period: p(4, 64),
            sphr: p(64, 8192),
            ephv: p(64, 65536),
            epsv: p(64, 8192),
            base_factor: 64,
            whistle_q: 512,
            prop_q: 8,
            inact_q: [p(1 << 25, 1 << 26), 3 << 24, 1 << 24],
            min_slash_q: [p(64, 128), 64, 32],
            slash_mult: [p(2, 1), 2, 3],
            max_deposits: 16,
            sync_size: p(32, 512) as usize,
            sync_period: p(8, 256),
            max_withdrawals: p(4, 16) as usize,
            sweep: p(16, 16384) as usize,
            max_blobs: 6,
            min_act_bal: 32 * GWEI,
            max_eb_electra: 2048 * GWEI,
            min_slash_q_electra: 4096,
            whistle_q_electra: 4096,
            partial_limit: p(64, 1 << 27) as usize,
            consolidation_limit: p(64, 1 << 18) as usize,
            max_partials_sweep: p(1, 8) as usize,
            min_genesis_validators: p(64, 16384),
            min_genesis_time: p(1578009600, 1606824000),
            genesis_delay: p(300, 604800),
            versions,
            epochs: [0, FAR, FAR, FAR, FAR, FAR],
            sps: p(6, 12),
            wd_delay: 256,
            shard_period: p(64, 256),
            inact_bias: 4,
            inact_recovery: 16,
            ejection: 16 * GWEI,
            min_churn: p(2, 4),
            max_act_churn: p(4, 8),
            min_churn_electra: p(64, 128) * GWEI,
            max_act_exit_churn: p(128, 256) * GWEI,
            churn_q: p(32, 65536),
            engine_ok: true,
        }
    }
    /// a configuration in which every configurable quantity may differ from the stock one
    pub fn random(preset: Preset, fork: Fork, r: &mut Rng) -> Self {
        let mut c = Self::new(preset);
        // fork schedule: all forks up to `fork` active in the past
        let mut e = 0;
        for i in 1..=fork as usize {
            e += r.below(4);
            c.epochs[i] = e;
        }
        if r.chance(2, 3) {
            for v in c.versions.iter_mut() {
                *v = r.arr();
            }
        }
        if r.chance(3, 4) {
            c.shard_period = *r.pick(&[0, 1, 2, 5, 64, c.shard_period]);
            c.wd_delay = *r.pick(&[1, 4, 17, 256]);
            c.sps = *r.pick(&[1, 5, 6, 12]);
            c.min_churn = r.range(1, 5);
            c.max_act_churn = r.range(1, 6);
            c.churn_q = *r.pick(&[2, 8, 32, 65536]);
            c.ejection = r.range(14, 22) * GWEI;
            c.inact_bias = r.range(1, 9);
            c.inact_recovery = r.range(1, 20);
            c.min_churn_electra = *r.pick(&[8, 32, 64, 100]) * GWEI + *r.pick(&[0, 1, GWEI / 2]);
            c.max_act_exit_churn = *r.pick(&[16, 64, 128, 4000]) * GWEI;
            c.genesis_delay = r.below(1000);
        }
        if r.chance(1, 3) {
            c.hyst_down = r.range(1, 3);
            c.hyst_up = r.range(1, 6);
            c.min_att_delay = *r.pick(&[1, 1, 2]);
            c.max_seed = r.range(1, 6);
            c.min_inactivity = r.range(1, 6);
            c.base_factor = *r.pick(&[1, 16, 64, 100]);
            c.whistle_q = *r.pick(&[2, 16, 512]);
            c.prop_q = *r.pick(&[2, 8]);
            c.whistle_q_electra = *r.pick(&[2, 64, 4096]);
            c.min_slash_q_electra = *r.pick(&[4, 64, 4096]);
            c.shuffle_rounds = *r.pick(&[1, 10, 33]);
            for k in 0..3 {
                c.inact_q[k] = 1 << r.range(10, 26);
                c.min_slash_q[k] = 1 << r.range(1, 7);
                c.slash_mult[k] = r.range(1, 5);
            }
            if preset == Preset::Minimal {
                c.sweep = r.range(1, 40) as usize;
                c.target_committee = r.range(1, 6);
                c.eth1_period = *r.pick(&[1, 2, 4]);
                c.consolidation_limit = *r.pick(&[2, 64]);
                c.max_partials_sweep = *r.pick(&[1, 2]);
                c.max_blobs = *r.pick(&[2, 6]);
            }
        }
        c
    }
    pub fn context(&self) -> ethereum_consensus::state_transition::Context {
        use ethereum_consensus::state_transition::Context;
        let mut c = match self.preset {
            Preset::Minimal => Context::for_minimal(),
            Preset::Mainnet => Context::for_mainnet(),
        };
        c.target_committee_size = self.target_committee;
        c.shuffle_round_count = self.shuffle_rounds;
        c.hysteresis_downward_multiplier = self.hyst_down;
        c.hysteresis_upward_multiplier = self.hyst_up;
        c.min_attestation_inclusion_delay = self.min_att_delay;
        c.max_seed_lookahead = self.max_seed;
        c.min_epochs_to_inactivity_penalty = self.min_inactivity;
        c.epochs_per_eth1_voting_period = self.eth1_period;
        c.base_reward_factor = self.base_factor;
        c.whistleblower_reward_quotient = self.whistle_q;
        c.proposer_reward_quotient = self.prop_q;
        c.inactivity_penalty_quotient = self.inact_q[0];
        c.inactivity_penalty_quotient_altair = self.inact_q[1];
        c.inactivity_penalty_quotient_bellatrix = self.inact_q[2];
        c.min_slashing_penalty_quotient = self.min_slash_q[0];
        c.min_slashing_penalty_quotient_altair = self.min_slash_q[1];
        c.min_slashing_penalty_quotient_bellatrix = self.min_slash_q[2];
        c.proportional_slashing_multiplier = self.slash_mult[0];
        c.proportional_slashing_multiplier_altair = self.slash_mult[1];
        c.proportional_slashing_multiplier_bellatrix = self.slash_mult[2];
        c.max_validators_per_withdrawals_sweep = self.sweep;
        c.max_blobs_per_block = self.max_blobs;
        c.min_slashing_penalty_quotient_electra = self.min_slash_q_electra;
        c.whistleblower_reward_quotient_electra = self.whistle_q_electra;
        c.pending_partial_withdrawals_limit = self.partial_limit;
        c.pending_consolidations_limit = self.consolidation_limit;
        c.max_pending_partials_per_withdrawals_sweep = self.max_partials_sweep;
        c.min_genesis_active_validator_count = self.min_genesis_validators as usize;
        c.min_genesis_time = self.min_genesis_time;
        c.genesis_delay = self.genesis_delay;
        c.genesis_fork_version = self.versions[0];
        c.altair_fork_version = self.versions[1];
        c.bellatrix_fork_version = self.versions[2];
        c.capella_fork_version = self.versions[3];
        c.deneb_fork_version = self.versions[4];
        c.electra_fork_version = self.versions[5];
        c.altair_fork_epoch = self.epochs[1];
        c.bellatrix_fork_epoch = self.epochs[2];
        c.capella_fork_epoch = self.epochs[3];
        c.deneb_fork_epoch = self.epochs[4];
        c.electra_fork_epoch = self.epochs[5];
        c.seconds_per_slot = self.sps;
        c.min_validator_withdrawability_delay = self.wd_delay;
        c.shard_committee_period = self.shard_period;
        c.inactivity_score_bias = self.inact_bias;
        c.inactivity_score_recovery_rate = self.inact_recovery;
        c.ejection_balance = self.ejection;
        c.min_per_epoch_churn_limit = self.min_churn;
        c.max_per_epoch_activation_churn_limit = self.max_act_churn;
        c.min_per_epoch_churn_limit_electra = self.min_churn_electra;
        c.max_per_epoch_activation_exit_churn_limit = self.max_act_exit_churn;
        c.churn_limit_quotient = self.churn_q;
        c.execution_engine = self.engine_ok;
        c
    }
    /// phase0 / altair / bellatrix+ quotient column
    pub fn col(&self, f: Fork) -> usize {
        (f as usize).min(2)
    }
}
