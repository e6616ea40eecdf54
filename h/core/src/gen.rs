//! Workload: synthetic but self-consistent beacon states and blocks, with values pushed towards
//! the boundaries the rules speak about.
use crate::{
    cfg::{Cfg, FAR, GWEI},
    rstate::*,
    schema::*,
    stf::*,
    ty::{branch, merkle, mixin, Ty, Val},
};
use blst::min_pk::SecretKey;
use std::collections::{BTreeMap, HashSet};
use vcommon::Rng;

pub const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";

pub fn pk_of(k: u64) -> [u8; 48] {
    let mut s = [0; 32];
    s[24..].copy_from_slice(&k.to_be_bytes());
    blst::encode_scalar(&s)
}
/// signature by the sum of the keys' scalars (the stand-in pairing exposes the scalar)
pub fn sign(pks: &[[u8; 48]], msg: &B32) -> [u8; 96] {
    let mut sum = fr::Fr::ZERO;
    for p in pks {
        if let Some(x) = fr::Fr::from_be_bytes(&p[16..].try_into().unwrap()) {
            sum = sum.add(&x);
        }
    }
    match SecretKey::from_bytes(&sum.to_be_bytes()) {
        Ok(k) => k.sign(msg, DST, &[]).to_bytes(),
        Err(_) => INFINITY_SIG,
    }
}
fn bytes(b: &[u8]) -> Val {
    Val::Bytes(b.to_vec())
}
fn u(x: u64) -> Val {
    Val::U64(x)
}

#[derive(Clone, Debug, Default)]
pub struct Knobs {
    pub focus: Vec<Focus>,
    /// state sits on the last slot of its epoch
    pub epoch_end: bool,
    pub epoch_start: bool,
    /// chance in 100 that a generated operation is deliberately altered
    pub spoil: u64,
    pub min_epoch: u64,
    /// keep the registry clean: everyone active and unslashed
    pub healthy: bool,
    /// no lists of phase0 pending attestations
    pub no_pending: bool,
    pub validators: Option<usize>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Focus {
    Header,
    Randao,
    Eth1,
    ProposerSlashing,
    AttesterSlashing,
    Attestation,
    Deposit,
    Exit,
    Sync,
    Payload,
    Withdrawals,
    BlsChange,
    WithdrawalRequest,
    Receipt,
    Consolidation,
}
#[derive(Clone)]
pub struct World {
    pub fork: Fork,
    pub preset: Preset,
    pub c: Cfg,
    pub s: RState,
    /// leaves of the deposit tree and the not yet processed deposit data
    pub leaves: Vec<B32>,
    pub pending: Vec<Val>,
    /// counters of what was generated
    pub seen: BTreeMap<String, u64>,
    next_key: u64,
}

fn near(r: &mut Rng, x: u64) -> u64 {
    match r.below(4) {
        0 => x.saturating_sub(1),
        1 => x + 1,
        _ => x,
    }
}

impl World {
    pub fn new(fork: Fork, preset: Preset, c: Cfg, k: &Knobs, r: &mut Rng) -> Self {
        let mut s = RState::blank(fork, preset);
        let m = preset == Preset::Minimal;
        let fe = c.epochs[fork as usize];
        let hist = c.sphr / c.spe;
        // ---- time
        let mut e = fe
            + match r.below(10) {
                0 => 0,
                1 => 1,
                2 | 3 => r.range(2, 4),
                4 => hist - 1,
                5 => {
                    let p = *r.pick(&[c.eth1_period, c.sync_period, hist, c.epsv]);
                    p * r.range(1, 3) - 1
                }
                6 => r.range(c.ephv - 2, c.ephv + 2),
                7 => r.range(c.min_inactivity, c.min_inactivity + 6),
                _ => r.range(2, 3 * hist),
            };
        if r.chance(1, 8) {
            let p = *r.pick(&[c.eth1_period, c.sync_period, hist]);
            e = e.div_ceil(p) * p + p - 1;
        }
        e = e.max(k.min_epoch);
        let off = if k.epoch_end {
            c.spe - 1
        } else if k.epoch_start {
            0
        } else {
            match r.below(5) {
                0 => 0,
                1 => c.spe - 1,
                _ => r.below(c.spe),
            }
        };
        s.slot = e * c.spe + off;
        if s.slot == 0 && !k.epoch_start {
            s.slot = 1;
        }
        s.genesis_time = r.below(1 << 40);
        s.gvr = r.arr();
        s.fork_cur = c.versions[fork as usize];
        s.fork_prev = c.versions[(fork as usize).saturating_sub(1)];
        s.fork_epoch = fe;
        if fork == Phase0 && r.chance(1, 3) {
            // a chain may have changed its version without changing its rules
            s.fork_prev = r.arr();
            s.fork_epoch = r.below(e + 1);
        }
        for x in s.block_roots.iter_mut().chain(s.state_roots.iter_mut()) {
            *x = r.arr();
        }
        if r.chance(1, 2) {
            // skipped slots: equal neighbouring roots
            for _ in 0..r.below(12) {
                let i = r.idx(s.block_roots.len() - 1);
                s.block_roots[i + 1] = s.block_roots[i];
            }
        }
        for x in s.mixes.iter_mut() {
            *x = r.arr();
        }
        let hslot = match r.below(4) {
            0 => s.slot.saturating_sub(r.range(1, 20)),
            _ => s.slot.saturating_sub(1),
        };
        s.header = Header {
            slot: hslot,
            proposer: r.below(16),
            parent: r.arr(),
            state: if r.chance(1, 3) { [0; 32] } else { r.arr() },
            body: r.arr(),
        };
        // ---- registry
        let n = k.validators.unwrap_or_else(|| {
            if m {
                *r.pick(&[16, 24, 33, 40, 48, 64, 64, 72, 96])
            } else {
                *r.pick(&[64, 96, 130, 200, 300])
            }
        });
        let base = r.range(1, 1 << 40);
        let fin_guess = e.saturating_sub(2);
        for i in 0..n {
            let pk = pk_of(base + i as u64);
            let mut v = Validator {
                pk,
                wc: [0; 32],
                eb: c.max_eb,
                slashed: false,
                elig: 0,
                act: 0,
                exit: FAR,
                wd: FAR,
            };
            // credentials
            let kind = if fork >= Electra { r.below(4) } else { r.below(3) };
            match kind {
                0 => {
                    let from = if r.chance(1, 2) { pk } else { pk_of(base + (1 << 41) + i as u64) };
                    v.wc = hash(&from);
                    v.wc[0] = 0;
                }
                1 | 2 => {
                    v.wc[0] = 1;
                    v.wc[12..].copy_from_slice(&r.bytes(20));
                }
                _ => {
                    v.wc[0] = 2;
                    v.wc[12..].copy_from_slice(&r.bytes(20));
                }
            }
            if r.chance(1, 20) {
                v.wc = r.arr();
                if r.chance(1, 2) {
                    v.wc[0] = *r.pick(&[0, 1, 2, 3]);
                }
            }
            let max = if fork >= Electra && v.wc[0] == 2 { c.max_eb_electra } else { c.max_eb };
            v.eb = match r.below(8) {
                0 => r.range(c.ejection / GWEI - 2, c.max_eb / GWEI) * GWEI,
                1 => near(r, c.ejection / GWEI) * GWEI,
                2 if max > c.max_eb => r.range(c.max_eb / GWEI, max / GWEI) * GWEI,
                3 if max > c.max_eb => max,
                _ => c.max_eb,
            };
            let keep = i < n / 4 || k.healthy;
            // life cycle
            match if keep { 0 } else { r.below(16) } {
                0..=7 => {
                    v.act = match r.below(4) {
                        0 => 0,
                        1 => near(r, e.saturating_sub(c.shard_period)).min(e),
                        2 => e,
                        _ => r.range(0, e),
                    };
                    if i < n / 4 {
                        v.act = if r.chance(1, 2) { 0 } else { e.saturating_sub(c.shard_period) };
                    }
                    v.elig = v.act.saturating_sub(r.below(5));
                }
                8 => {
                    // exiting
                    v.exit = e + r.range(1, c.max_seed + 4);
                    v.wd = v.exit + c.wd_delay;
                }
                9 => {
                    v.exit = e.saturating_sub(r.below(4));
                    v.wd = match r.below(4) {
                        0 => e,
                        1 => e + 1,
                        2 => e.saturating_sub(1),
                        _ => v.exit + c.wd_delay,
                    };
                }
                10 | 11 => {
                    v.slashed = true;
                    v.exit = match r.below(3) {
                        0 => e + r.range(1, 6),
                        _ => e.saturating_sub(r.below(3)),
                    };
                    v.wd = match r.below(5) {
                        0 | 1 => e + c.epsv / 2,
                        2 => near(r, e + c.epsv / 2),
                        3 => near(r, e),
                        _ => e + c.epsv,
                    };
                }
                12 => {
                    // fresh deposit, maybe eligible for the queue
                    v.elig = FAR;
                    v.act = FAR;
                    if r.chance(1, 3) {
                        v.eb = c.max_eb - GWEI * r.below(3);
                    }
                    if fork >= Electra && r.chance(1, 3) {
                        v.eb = 0;
                    }
                }
                13 | 14 => {
                    v.elig = near(r, fin_guess).saturating_sub(r.below(3));
                    v.act = FAR;
                }
                _ => {
                    v.act = e + r.range(1, c.max_seed + 1);
                    v.elig = e.saturating_sub(1);
                }
            }
            let h = c.ebi / c.hyst_q;
            let b = match r.below(14) {
                0 => v.eb.saturating_sub(h * c.hyst_down),
                1 => v.eb.saturating_sub(h * c.hyst_down + 1),
                2 => v.eb + h * c.hyst_up,
                3 => v.eb + h * c.hyst_up + 1,
                4 => v.eb + r.below(3 * GWEI),
                5 => v.eb.saturating_sub(r.below(3 * GWEI)),
                6 => 0,
                7 => v.eb + 1,
                8 => r.below(1 << 14),
                9 => v.eb + r.below(40) * GWEI,
                10 => r.range(0, 34) * GWEI,
                _ => v.eb,
            };
            s.v.push(v);
            s.bal.push(b);
        }
        for _ in 0..r.below(6) {
            let i = if r.chance(1, 2) { r.idx(s.slashings.len()) } else { (e % c.epsv) as usize };
            s.slashings[i] = *r.pick(&[0, GWEI, 32 * GWEI, 100 * GWEI, 1000 * GWEI]);
        }
        if r.chance(1, 10) {
            s.slashings[r.idx(c.epsv as usize)] = n as u64 * 32 * GWEI / 3;
        }
        // ---- checkpoints
        let prev = e.saturating_sub(1);
        let mode = r.below(6);
        let cj = prev.saturating_sub([0, 0, 1, 2, 1, 0][mode as usize]);
        let pj = cj.saturating_sub([1, 0, 1, 1, 2, 2][mode as usize]);
        let mut fin = pj.saturating_sub(r.below(3));
        if r.chance(1, 3) {
            let d = c.min_inactivity + r.below(3);
            fin = fin.min(prev.saturating_sub(d));
            if r.chance(1, 3) {
                fin = fin.min(prev.saturating_sub(c.min_inactivity + r.below(40)));
            }
        }
        let root_of = |s: &RState, ep: u64, r: &mut Rng| -> B32 {
            if r.chance(5, 6) {
                s.block_roots[(ep * c.spe % c.sphr) as usize]
            } else {
                r.arr()
            }
        };
        s.cj = (cj, root_of(&s, cj, r));
        s.pj = if pj == cj { s.cj } else { (pj, root_of(&s, pj, r)) };
        s.fin = (fin, root_of(&s, fin, r));
        let bm = r.below(5);
        for i in 0..4 {
            s.bits[i] = match bm {
                0 => true,
                1 => i > 0,
                2 => false,
                _ => r.chance(1, 2),
            };
        }
        // ---- eth1
        let filler = n as u64;
        s.eth1 = Eth1 { root: [0; 32], count: filler, hash: r.arr() };
        s.eth1_index = filler;
        let votes_max = (c.eth1_period * c.spe) as usize;
        let nv = match r.below(4) {
            0 => 0,
            1 => votes_max / 2,
            2 => (votes_max / 2).saturating_sub(1),
            _ => r.idx(votes_max.max(2) - 1),
        };
        let cand: Vec<Eth1> =
            (0..2).map(|_| Eth1 { root: r.arr(), count: filler + r.below(20), hash: r.arr() }).collect();
        let one = r.chance(1, 2);
        for _ in 0..nv.min(schema(fork, preset).s.eth1_votes - 1).min(600) {
            s.eth1_votes.push(if one { cand[0].clone() } else { r.pick(&cand).clone() });
        }
        for _ in 0..r.below(4) {
            s.historical_roots.push(r.arr());
        }
        let mut w = Self {
            fork,
            preset,
            c,
            s,
            leaves: (0..filler).map(|_| r.arr()).collect(),
            pending: vec![],
            seen: BTreeMap::new(),
            next_key: base + (1 << 42),
        };
        // ---- participation
        if fork == Phase0 {
            if !k.no_pending {
                w.fill_pending_atts(r);
            }
        } else {
            w.s.cur_part = w.participation(e, r);
            w.s.prev_part = w.participation(prev, r);
            let im = r.below(4);
            let (bias, rec) = (w.c.inact_bias, w.c.inact_recovery);
            w.s.inact = (0..n)
                .map(|_| match im {
                    0 => 0,
                    1 => r.below(5),
                    2 => *r.pick(&[0, 1, bias, rec, rec + 1, rec - 1]),
                    _ => r.below(2000),
                })
                .collect();
            let pick = |w: &World, r: &mut Rng| {
                let pks: Vec<[u8; 48]> =
                    (0..w.c.sync_size).map(|_| w.s.v[r.idx(n)].pk).collect();
                let agg = aggregate_pks(&pks);
                SyncCommittee { pks, agg }
            };
            w.s.next_sync = pick(&w, r);
            w.s.cur_sync = pick(&w, r);
            if r.chance(1, 2) {
                if let Ok(x) = w.s.compute_next_sync(&w.c) {
                    w.s.cur_sync = x;
                }
            }
        }
        if fork >= Bellatrix {
            let t = w.s.schema().ty("ExecutionPayloadHeader").clone();
            if fork == Bellatrix && r.chance(1, 4) {
                w.s.payload = Some(t.default());
            } else {
                w.s.payload = Some(t.rand(r, 4));
            }
        }
        if fork >= Capella {
            w.s.next_wd = r.below(1 << 20);
            w.s.next_wd_v = if r.chance(1, 4) { n as u64 - 1 } else { r.below(n as u64) };
            for _ in 0..r.below(3) {
                w.s.summaries.push((r.arr(), r.arr()));
            }
        }
        if fork >= Electra {
            w.electra_fields(r);
        }
        w.make_deposits(k, r);
        w
    }
    pub fn note(&mut self, s: &str) {
        *self.seen.entry(s.into()).or_default() += 1;
    }
    fn participation(&mut self, epoch: u64, r: &mut Rng) -> Vec<u8> {
        let n = self.s.v.len();
        let mode = r.below(7);
        let mut p: Vec<u8> = (0..n)
            .map(|_| match mode {
                0 => 7,
                1 => 0,
                2 => r.below(8) as u8,
                3 if r.chance(9, 10) => 7,
                4 => *r.pick(&[0, 1, 3, 7]),
                _ => {
                    if r.chance(3, 4) {
                        7
                    } else {
                        r.below(8) as u8
                    }
                }
            })
            .collect();
        if mode >= 5 {
            // balance exactly at (or next to) two thirds
            let act: Vec<usize> = (0..n)
                .filter(|i| self.s.v[*i].active(epoch) && !self.s.v[*i].slashed)
                .collect();
            let total = self.s.total_active(&self.c);
            let mut order = act.clone();
            r.shuffle(&mut order);
            for x in p.iter_mut() {
                *x &= !2;
            }
            let mut sum = 0;
            let mut chosen = vec![];
            for i in order {
                if (sum + self.s.v[i].eb) * 3 > total * 2 {
                    break;
                }
                sum += self.s.v[i].eb;
                p[i] |= 2;
                chosen.push(i);
            }
            let e = self.s.epoch(&self.c);
            let d = total * 2 - sum * 3;
            let d = if mode == 5 { d } else { d.saturating_sub(self.c.ebi) };
            // raising an attester active in both epochs moves both sides
            if let Some(i) = chosen.into_iter().find(|i| {
                self.s.v[*i].active(e) && self.s.v[*i].eb + d <= 60 * GWEI && d > 0 && d % self.c.ebi == 0
            }) {
                self.s.v[i].eb += d;
                self.note("two-thirds boundary");
            }
        }
        p
    }
    fn fill_pending_atts(&mut self, r: &mut Rng) {
        let sch = self.s.schema();
        let c = self.c.clone();
        let e = self.s.epoch(&c);
        let n = self.s.v.len() as u64;
        for which in 0..2 {
            if which == 0 && e == 0 {
                continue;
            }
            let ep = if which == 0 { e - 1 } else { e };
            let density = *r.pick(&[0u64, 30, 70, 100, 100]);
            let count = self.s.committee_count(ep, &c);
            for slot in ep * c.spe..(ep + 1) * c.spe {
                for idx in 0..count {
                    if slot >= self.s.slot || !r.chance(density, 100) {
                        continue;
                    }
                    let com = self.s.committee(slot, idx, &c);
                    let copies = if r.chance(1, 4) { 2 } else { 1 };
                    for _ in 0..copies {
                        let maxd = (self.s.slot - slot).min(c.spe);
                        let delay = match r.below(3) {
                            0 => maxd,
                            1 => c.min_att_delay.min(maxd),
                            _ => r.range(1, maxd),
                        };
                        let mut d = self.att_data(slot, idx, r);
                        let src = if which == 0 { self.s.pj } else { self.s.cj };
                        d.gm("source").set("epoch", u(src.0));
                        d.gm("source").set("root", Val::root(src.1));
                        let m = r.below(4);
                        let bits: Vec<bool> =
                            com.iter().map(|_| m == 0 || r.chance(m + 1, 4)).collect();
                        let pa = obj(
                            sch.ty("PendingAttestation"),
                            vec![Val::Bits(bits), d, u(delay), u(r.below(n))],
                        );
                        let list =
                            if which == 0 { &mut self.s.prev_atts } else { &mut self.s.cur_atts };
                        if list.len() < sch.s.pending_atts {
                            list.push(pa);
                        }
                    }
                }
            }
            if r.chance(1, 2) {
                let list = if which == 0 { &mut self.s.prev_atts } else { &mut self.s.cur_atts };
                let mut l = std::mem::take(list);
                r.shuffle(&mut l);
                *list = l;
            }
        }
        // two-thirds boundary
        if r.chance(1, 3) && e >= 2 {
            let prev = r.chance(1, 2);
            let ep = if prev { e - 1 } else { e };
            let br = self.s.block_root(ep, &c);
            if let Ok(br) = br {
                let list = if prev { &self.s.prev_atts } else { &self.s.cur_atts };
                let mut set = HashSet::new();
                for a in list {
                    if a.g("data").g("target").r("root") == br {
                        if let Ok(x) = attesting(&self.s, a, &c) {
                            set.extend(x.into_iter().filter(|i| !self.s.v[*i].slashed));
                        }
                    }
                }
                // lower the others' share until it fits exactly
                let total = self.s.total_active(&c);
                let sum: u64 = set.iter().map(|i| self.s.v[*i].eb).sum();
                let mut others: Vec<usize> =
                    self.s.active(e).into_iter().filter(|i| !set.contains(i)).collect();
                others.sort();
                if sum * 3 < total * 2 && sum > 0 {
                    // shrink non-attesters: 3 sum = 2 (total - x)
                    let mut x = total - sum * 3 / 2;
                    if sum * 3 % (2 * c.ebi) == 0 {
                        for i in others {
                            let d = x.min(self.s.v[i].eb.saturating_sub(c.ebi));
                            self.s.v[i].eb -= d;
                            x -= d;
                        }
                        if x == 0 {
                            self.note("two-thirds boundary");
                        }
                    }
                }
            }
        }
    }
    fn electra_fields(&mut self, r: &mut Rng) {
        let e = self.s.epoch(&self.c);
        let n = self.s.v.len() as u64;
        self.s.receipts_start = match r.below(3) {
            0 => UNSET,
            1 => self.s.eth1_index,
            _ => self.s.eth1_index + r.below(5),
        };
        self.s.dep_consume = *r.pick(&[0, 1, GWEI, 40 * GWEI]);
        self.s.exit_consume = *r.pick(&[0, GWEI, 32 * GWEI, 33 * GWEI]);
        self.s.earliest_exit = near(r, act_exit_epoch(e, &self.c)) + r.below(3);
        self.s.cons_consume = *r.pick(&[0, GWEI, 32 * GWEI, 40 * GWEI]);
        self.s.earliest_cons = near(r, act_exit_epoch(e, &self.c)) + r.below(3);
        let churn = self.s.act_exit_churn(&self.c);
        for _ in 0..r.below(6) {
            let a = match r.below(6) {
                0 => churn,
                1 => churn + self.s.dep_consume,
                2 => churn + self.s.dep_consume + 1,
                3 => GWEI,
                4 => r.below(64 * GWEI),
                _ => 32 * GWEI,
            };
            self.s.pend_dep.push((r.below(n), a));
        }
        let long = self.preset == Preset::Minimal && r.chance(1, 8);
        for _ in 0..if long { self.c.partial_limit as u64 - r.below(2) } else { r.below(5) } {
            let i = r.below(n);
            if r.chance(2, 3) {
                let v = &mut self.s.v[i as usize];
                if v.exit == FAR {
                    v.wc[0] = 2;
                    if r.chance(1, 2) {
                        v.eb = *r.pick(&[32, 33, 64]) * GWEI;
                        self.s.bal[i as usize] = v.eb + *r.pick(&[0, 1, GWEI, 5 * GWEI]);
                    }
                }
            }
            let wd = if r.chance(3, 4) { e.saturating_sub(r.below(3)) } else { near(r, e + 1) };
            self.s.pend_wd.push((i, *r.pick(&[1, GWEI, 3 * GWEI, 500 * GWEI]), wd));
        }
        for _ in 0..r.below(4).min(self.c.consolidation_limit as u64) {
            let (a, b) = (r.below(n), r.below(n));
            if a == b {
                continue;
            }
            let va = &mut self.s.v[a as usize];
            if r.chance(3, 4) {
                va.exit = e.saturating_sub(2);
                va.wd = near(r, e);
                if r.chance(4, 5) {
                    va.slashed = false;
                }
                if va.act == FAR {
                    va.act = 0;
                }
            } else if va.exit == FAR && va.act != FAR {
                va.exit = e + 6;
                va.wd = va.exit + self.c.wd_delay;
            }
            self.s.pend_cons.push((a, b));
        }
    }
    fn make_deposits(&mut self, k: &Knobs, r: &mut Rng) {
        let focus = k.focus.contains(&Focus::Deposit);
        let want = if focus {
            *r.pick(&[1, 1, 2, 3, 4, 15, 16, 17, 20])
        } else if r.chance(1, 6) {
            r.below(3)
        } else {
            0
        };
        let mut last_new: Option<[u8; 48]> = None;
        for _ in 0..want {
            let n = self.s.v.len();
            let (pk, tag) = match r.below(8) {
                0 | 1 => (self.s.v[r.idx(n)].pk, "top-up"),
                2 if last_new.is_some() => (last_new.unwrap(), "repeat key"),
                3 if r.chance(1, 2) => {
                    let mut b: [u8; 48] = r.arr();
                    if r.chance(1, 2) {
                        b = blst::encode_out_of_group::<48>(r.range(1, 1 << 30));
                    } else if r.chance(1, 2) {
                        b = [0; 48];
                        b[0] = 0xc0;
                    }
                    (b, "invalid key")
                }
                _ => {
                    self.next_key += 1;
                    let pk = pk_of(self.next_key);
                    last_new = Some(pk);
                    (pk, "new key")
                }
            };
            let bad_sig = r.chance(1, 5);
            let d = self.deposit_data(pk, bad_sig, r);
            self.note(&format!("deposit {tag}{}", if bad_sig { ", bad signature" } else { "" }));
            self.pending.push(d);
        }
        self.leaves.extend(self.pending.iter().map(|d| d.htr()));
        let root = mixin(merkle(self.leaves.clone(), 1 << 32), self.leaves.len());
        self.s.eth1.root = root;
        self.s.eth1.count = self.leaves.len() as u64;
        if self.fork >= Electra && self.s.receipts_start != UNSET && r.chance(1, 2) {
            self.s.receipts_start = self.s.eth1_index + r.below(3);
        }
    }
    pub fn deposit_data(&mut self, pk: [u8; 48], bad_sig: bool, r: &mut Rng) -> Val {
        let sch = self.s.schema();
        let amount = match r.below(8) {
            0 => self.c.max_eb,
            1 => self.c.max_eb + r.below(5 * GWEI),
            2 => self.c.max_eb - 1,
            3 => self.c.ebi,
            4 => self.c.ebi - 1,
            5 => r.below(40 * GWEI),
            6 => r.range(1, 40) * GWEI,
            _ => self.c.max_eb,
        };
        let mut wc: B32 = r.arr();
        wc[0] = *r.pick(&[0, 1, 2]);
        let msg = obj(sch.ty("DepositMessage"), vec![bytes(&pk), bytes(&wc), u(amount)]);
        let mut ver = self.c.versions[0];
        let mut gvr = [0; 32];
        let mut signer = pk;
        let mut amt = amount;
        if bad_sig {
            match r.below(4) {
                0 => ver = self.s.fork_cur,
                1 => gvr = self.s.gvr,
                2 => signer = pk_of(77),
                _ => amt ^= 1,
            }
        }
        let sr = signing_root(&msg.htr(), &compute_domain(D_DEPOSIT, &ver, &gvr));
        let sig = sign(&[signer], &sr);
        obj(sch.ty("DepositData"), vec![bytes(&pk), bytes(&wc), u(amt), bytes(&sig)])
    }
    /// deposits (with proofs) the next block must carry
    pub fn deposits(&self) -> Vec<Val> {
        let sch = self.s.schema();
        let limit = if self.fork >= Electra { self.s.eth1.count.min(self.s.receipts_start) } else { self.s.eth1.count };
        let k = limit.saturating_sub(self.s.eth1_index).min(self.c.max_deposits);
        let start = self.leaves.len() - self.pending.len();
        let mut out = vec![];
        for j in 0..k {
            let i = (self.s.eth1_index + j) as usize;
            if i < start || i >= self.leaves.len() {
                break;
            }
            let mut br = branch(self.leaves.clone(), 1 << 32, i);
            br.push(crate::ty::pad32(&(self.leaves.len() as u64).to_le_bytes()));
            out.push(obj(
                sch.ty("Deposit"),
                vec![Val::Seq(br.iter().map(|b| Val::root(*b)).collect()), self.pending[i - start].clone()],
            ));
        }
        out
    }
    /// attestation data for a slot with correct (mostly) votes
    pub fn att_data(&self, slot: u64, index: u64, r: &mut Rng) -> Val {
        let sch = self.s.schema();
        let c = &self.c;
        let e = slot / c.spe;
        let cur = self.s.epoch(c);
        let src = if e == cur { self.s.cj } else { self.s.pj };
        let root = |s: u64, r: &mut Rng| -> B32 {
            if r.chance(1, 6) {
                r.arr()
            } else {
                self.s.block_roots[(s % c.sphr) as usize]
            }
        };
        let head = root(slot, r);
        let target = root(e * c.spe, r);
        let cp = |e: u64, x: B32| obj(sch.ty("Checkpoint"), vec![u(e), Val::root(x)]);
        obj(
            sch.ty("AttestationData"),
            vec![u(slot), u(index), Val::root(head), cp(src.0, src.1), cp(e, target)],
        )
    }
    pub fn sign_att_data(&self, d: &Val, idx: &[usize]) -> [u8; 96] {
        let pks: Vec<_> = idx.iter().map(|i| self.s.v[*i].pk).collect();
        let sr = signing_root(&d.htr(), &self.s.domain(D_ATTESTER, d.g("target").n("epoch")));
        sign(&pks, &sr)
    }
    /// one attestation; with chance `spoil` altered in one respect before signing
    pub fn attestation(&mut self, spoil: u64, r: &mut Rng) -> Option<Val> {
        let c = self.c.clone();
        let sch = self.s.schema();
        let (cur, prev) = (self.s.epoch(&c), self.s.prev_epoch(&c));
        let lo = prev * c.spe;
        if self.s.slot < c.min_att_delay {
            return None;
        }
        let hi = self.s.slot - c.min_att_delay;
        // before deneb an attestation is valid for one epoch's worth of slots only
        let spoiled = r.chance(spoil, 100);
        let lo = if self.fork >= Deneb || (spoiled && r.chance(1, 6)) { lo } else { lo.max(self.s.slot.saturating_sub(c.spe)) };
        let slot = match r.below(6) {
            0 => hi,
            1 => lo.max(self.s.slot.saturating_sub(c.spe)),
            2 => lo.max(self.s.slot.saturating_sub(c.spe + 1)),
            3 => hi.saturating_sub(isqrt(c.spe) + 1 - c.min_att_delay.min(2) + r.below(2)).max(lo),
            _ => r.range(lo, hi),
        };
        let how = if spoiled { r.range(1, 16) } else { 0 };
        // too early by a slot or more, otherwise as it should be
        let slot = if how == 15 { self.s.slot - r.below(c.min_att_delay) } else { slot };
        // before the previous epoch, otherwise as it should be
        let slot = if how == 16 && prev > 0 { (prev - 1) * c.spe + r.below(c.spe) } else { slot };
        let e = slot / c.spe;
        let count = self.s.committee_count(e, &c);
        let index = r.below(count);
        let mut d = self.att_data(slot, if self.fork >= Electra { 0 } else { index }, r);
        let mut com: Vec<usize> = vec![];
        let mut cbits = vec![false; sch.s.max_committees];
        if self.fork >= Electra {
            let all = r.chance(1, 2);
            for k in 0..count {
                cbits[k as usize] = all || k == index || r.chance(1, 3);
            }
            for k in 0..count {
                if cbits[k as usize] {
                    com.extend(self.s.committee(slot, k, &c));
                }
            }
        } else {
            com = self.s.committee(slot, index, &c);
        }
        if com.is_empty() && !spoiled {
            return None;
        }
        let m = r.below(5);
        let mut bits: Vec<bool> = com.iter().map(|_| m == 0 || r.chance(m, 4)).collect();
        if !bits.iter().any(|b| *b) && !bits.is_empty() {
            let i = r.idx(bits.len());
            bits[i] = true;
        }
        match how {
            1 => d.gm("target").set("epoch", u(near(r, cur + 1))),
            2 => d.gm("target").set("epoch", u(e ^ 1)),
            3 => {
                let s2 = self.s.slot.saturating_sub(c.min_att_delay) + r.below(3);
                d.set("slot", u(s2));
                d.gm("target").set("epoch", u(s2 / c.spe));
            }
            4 => d.set("slot", u(slot.saturating_sub(c.spe))),
            5 => d.set("index", u(count + r.below(2))),
            6 => {
                if self.fork >= Electra {
                    let k = (count as usize).min(cbits.len() - 1);
                    cbits[k] ^= true;
                } else {
                    d.set("index", u(r.edgy()));
                }
            }
            7 => bits.push(r.chance(1, 2)),
            8 => {
                bits.pop();
            }
            9 => bits.iter_mut().for_each(|b| *b = false),
            10 => {
                let x = near(r, d.g("source").n("epoch"));
                d.gm("source").set("epoch", u(x));
            }
            11 => {
                let x: B32 = r.arr();
                d.gm("source").set("root", Val::root(x));
            }
            12 => {
                let o = if e == cur { self.s.pj } else { self.s.cj };
                d.gm("source").set("epoch", u(o.0));
                d.gm("source").set("root", Val::root(o.1));
            }
            _ => {}
        }
        let att: Vec<usize> =
            com.iter().zip(&bits).filter(|x| *x.1).map(|x| *x.0).collect();
        let mut sig = self.sign_att_data(&d, &att);
        match how {
            13 => sig = self.sign_att_data(&d, &att[1.min(att.len())..]),
            14 => sig = if r.chance(1, 2) { INFINITY_SIG } else { r.arr() },
            _ => {}
        }
        if how > 0 {
            self.note(&format!("attestation altered #{how}"));
        }
        let mut f = vec![Val::Bits(bits), d];
        if self.fork >= Electra {
            f.push(Val::Bits(cbits));
        }
        f.push(bytes(&sig));
        Some(obj(sch.ty("Attestation"), f))
    }
    pub fn proposer_slashing(&mut self, used: &mut HashSet<usize>, spoil: u64, r: &mut Rng) -> Option<Val> {
        let sch = self.s.schema();
        let c = self.c.clone();
        let e = self.s.epoch(&c);
        let n = self.s.v.len();
        let spoiled = r.chance(spoil, 100);
        let any = spoiled && r.chance(1, 8);
        let i = (0..30)
            .map(|_| r.idx(n))
            .find(|i| !used.contains(i) && (self.s.v[*i].slashable(e) || any))?;
        used.insert(i);
        let how = if spoiled { r.range(1, 9) } else { 0 };
        let slot = match r.below(4) {
            0 => self.s.slot,
            1 => (self.s.fork_epoch * c.spe).saturating_sub(1),
            2 => self.s.slot + r.below(100),
            _ => r.below(self.s.slot + 1),
        };
        let mk = |slot: u64, p: u64, r: &mut Rng| Header {
            slot,
            proposer: p,
            parent: r.arr(),
            state: r.arr(),
            body: r.arr(),
        };
        let mut h1 = mk(slot, i as u64, r);
        let mut h2 = h1.clone();
        match r.below(3) {
            0 => h2.parent = r.arr(),
            1 => h2.state = r.arr(),
            _ => h2.body = r.arr(),
        }
        match how {
            1 => h2 = h1.clone(),
            2 => h2.slot += 1,
            3 => h2.proposer = (i as u64 + 1) % n as u64,
            4 => {
                h1.proposer = n as u64 + r.below(2);
                h2.proposer = h1.proposer;
            }
            5 => {
                h1.slot = r.edgy();
                h2.slot = h1.slot;
            }
            _ => {}
        }
        let sg = |w: &Self, h: &Header, who: usize, d: u8| {
            let sr = signing_root(&h.htr(sch), &w.s.domain(d, h.slot / c.spe));
            sign(&[w.s.v[who].pk], &sr)
        };
        let other = (i + 1) % n;
        let mut s1 = sg(self, &h1, if how == 6 { other } else { i }, D_PROPOSER);
        let mut s2 = sg(self, &h2, if how == 7 { other } else { i }, if how == 8 { D_ATTESTER } else { D_PROPOSER });
        if how == 9 {
            std::mem::swap(&mut s1, &mut s2);
        }
        if how > 0 {
            self.note(&format!("proposer slashing altered #{how}"));
        }
        let sh = |h: &Header, s: &[u8; 96]| {
            obj(sch.ty("SignedBeaconBlockHeader"), vec![h.to_val(sch), bytes(s)])
        };
        Some(obj(sch.ty("ProposerSlashing"), vec![sh(&h1, &s1), sh(&h2, &s2)]))
    }
    pub fn attester_slashing(&mut self, used: &mut HashSet<usize>, spoil: u64, r: &mut Rng) -> Option<Val> {
        let sch = self.s.schema();
        let c = self.c.clone();
        let e = self.s.epoch(&c);
        let n = self.s.v.len();
        let spoiled = r.chance(spoil, 100);
        let how = if spoiled { r.range(1, 13) } else { 0 };
        let pick = |k: usize, r: &mut Rng| -> Vec<usize> {
            let mut s: HashSet<usize> = HashSet::new();
            for _ in 0..k {
                s.insert(r.idx(n));
            }
            let mut v: Vec<_> = s.into_iter().collect();
            v.sort();
            v
        };
        let k = r.range(1, 8) as usize;
        let common = pick(k, r);
        let mut a = common.clone();
        let mut b = common.clone();
        let (ka, kb) = (r.idx(3), r.idx(3));
        a.extend(pick(ka, r));
        b.extend(pick(kb, r));
        for x in [&mut a, &mut b] {
            x.sort();
            x.dedup();
        }
        if how == 1 {
            // nobody in common
            b.retain(|i| !a.contains(i));
        }
        if how == 2 {
            // only unslashable validators in common
            let bad: Vec<usize> = (0..n).filter(|i| !self.s.v[*i].slashable(e)).collect();
            if let Some(i) = bad.first() {
                a = vec![*i];
                b = vec![*i];
            }
        }
        let base = e + r.below(4) + 3;
        let cp = |e: u64, x: B32| obj(sch.ty("Checkpoint"), vec![u(e), Val::root(x)]);
        let data = |s: u64, t: u64, r: &mut Rng| {
            obj(
                sch.ty("AttestationData"),
                vec![u(r.below(1000)), u(r.below(3)), Val::root(r.arr()), cp(s, r.arr()), cp(t, r.arr())],
            )
        };
        let (mut d1, mut d2);
        if r.chance(1, 2) {
            // double vote
            d1 = data(base - 3, base, r);
            d2 = d1.clone();
            match r.below(4) {
                0 => d2.set("beacon_block_root", Val::root(r.arr())),
                1 => d2.gm("target").set("root", Val::root(r.arr())),
                2 => d2.set("index", u(d1.n("index") + 1)),
                _ => d2.gm("source").set("epoch", u(base - 2)),
            }
            self.note("double vote");
        } else {
            // first surrounds second
            d1 = data(base - 3, base, r);
            d2 = data(base - 2, base - 1, r);
            self.note("surround vote");
        }
        match how {
            3 => d2 = d1.clone(),
            4 => std::mem::swap(&mut d1, &mut d2), // surround the other way round
            5 => d2.gm("target").set("epoch", u(base + 1)),
            6 => {
                d1 = data(base - 3, base, r);
                d2 = data(base - 3, base - 1, r);
            }
            _ => {}
        }
        match how {
            7 => a.reverse(),
            8 => {
                if let Some(x) = a.last().copied() {
                    a.push(x);
                }
            }
            9 => b.clear(),
            10 => b.push(n + r.idx(2)),
            _ => {}
        }
        let ok = |v: &[usize]| -> Vec<usize> { v.iter().copied().filter(|i| *i < n).collect() };
        let mut s1 = self.sign_att_data(&d1, &ok(&a));
        let mut s2 = self.sign_att_data(&d2, &ok(&b));
        match how {
            11 => s1 = r.arr(),
            12 => s2 = self.sign_att_data(&d1, &ok(&b)),
            13 => std::mem::swap(&mut s1, &mut s2),
            _ => {}
        }
        if how > 0 {
            self.note(&format!("attester slashing altered #{how}"));
        }
        used.extend(a.iter().chain(&b).copied());
        let ia = |v: &[usize], d: Val, s: &[u8; 96]| {
            obj(
                sch.ty("IndexedAttestation"),
                vec![Val::U64s(v.iter().map(|x| *x as u64).collect()), d, bytes(s)],
            )
        };
        Some(obj(sch.ty("AttesterSlashing"), vec![ia(&a, d1, &s1), ia(&b, d2, &s2)]))
    }
    pub fn exit(&mut self, used: &mut HashSet<usize>, spoil: u64, r: &mut Rng) -> Option<Val> {
        let sch = self.s.schema();
        let c = self.c.clone();
        let e = self.s.epoch(&c);
        let n = self.s.v.len();
        let spoiled = r.chance(spoil, 100);
        let how = if spoiled { r.range(1, 9) } else { 0 };
        let good = |w: &Self, i: usize| {
            let v = &w.s.v[i];
            v.active(e) && v.exit == FAR && e >= v.act + c.shard_period && w.s.pending_to_withdraw(i as u64) == 0
        };
        let i = (0..60).map(|_| r.idx(n)).find(|i| {
            !used.contains(i)
                && match how {
                    1 => !self.s.v[*i].active(e),
                    2 => self.s.v[*i].exit != FAR,
                    3 => {
                        let v = &self.s.v[*i];
                        v.active(e) && v.exit == FAR && e < v.act + c.shard_period
                    }
                    9 => self.s.pending_to_withdraw(*i as u64) > 0,
                    _ => good(self, *i),
                }
        })?;
        used.insert(i);
        let mut ep = match r.below(4) {
            0 => e,
            1 => self.s.fork_epoch.saturating_sub(1).min(e),
            2 => 0,
            _ => r.range(0, e),
        };
        let mut idx = i as u64;
        match how {
            4 => ep = e + 1,
            5 => idx = n as u64 + r.below(2),
            6 => idx = r.edgy() | 1 << 40,
            _ => {}
        }
        let m = obj(sch.ty("VoluntaryExit"), vec![u(ep), u(idx)]);
        let d = if self.fork >= Deneb && how != 7 {
            compute_domain(D_EXIT, &c.versions[Capella as usize], &self.s.gvr)
        } else if how == 7 && self.fork < Deneb {
            compute_domain(D_EXIT, &self.s.fork_cur, &[0; 32])
        } else {
            self.s.domain(D_EXIT, ep)
        };
        let who = if how == 8 { (i + 1) % n } else { i };
        let sig = sign(&[self.s.v[who].pk], &signing_root(&m.htr(), &d));
        if how > 0 {
            self.note(&format!("exit altered #{how}"));
        }
        Some(obj(sch.ty("SignedVoluntaryExit"), vec![m, bytes(&sig)]))
    }
    pub fn bls_change(&mut self, used: &mut HashSet<usize>, spoil: u64, r: &mut Rng) -> Option<Val> {
        let sch = self.s.schema();
        let n = self.s.v.len();
        let spoiled = r.chance(spoil, 100);
        let how = if spoiled { r.range(1, 9) } else { 0 };
        // keys whose hash is the credential
        let i = (0..60).map(|_| r.idx(n)).find(|i| {
            let v = &self.s.v[*i];
            !used.contains(i) && if how == 1 { v.wc[0] != 0 } else { v.wc[0] == 0 && self.bls_key(*i).is_some() }
        })?;
        used.insert(i);
        let key = self.bls_key(i).unwrap_or(self.s.v[i].pk);
        let mut from = key;
        let mut signer = key;
        let mut idx = i as u64;
        match how {
            2 => {
                from = self.s.v[(i + 1) % n].pk;
                signer = from;
            }
            3 => signer = pk_of(5),
            4 => idx = n as u64 + r.below(2),
            5 => idx = (i as u64 + 1) % n as u64,
            9 => {
                // one byte of the credential is not the key's
                let k = match r.below(3) {
                    0 => 1,
                    1 => 31,
                    _ => 1 + r.idx(31),
                };
                self.s.v[i].wc[k] ^= 1 << r.below(8);
            }
            _ => {}
        }
        let to: [u8; 20] = r.arr();
        let m = obj(sch.ty("BlsToExecutionChange"), vec![u(idx), bytes(&from), bytes(&to)]);
        let d = match how {
            6 => compute_domain(D_BLS_CHANGE, &self.s.fork_cur, &self.s.gvr),
            7 => compute_domain(D_BLS_CHANGE, &self.c.versions[0], &[0; 32]),
            8 => compute_domain(D_EXIT, &self.c.versions[0], &self.s.gvr),
            _ => compute_domain(D_BLS_CHANGE, &self.c.versions[0], &self.s.gvr),
        };
        let sig = sign(&[signer], &signing_root(&m.htr(), &d));
        if how > 0 {
            self.note(&format!("credential change altered #{how}"));
        }
        Some(obj(sch.ty("SignedBlsToExecutionChange"), vec![m, bytes(&sig)]))
    }
    fn bls_key(&self, i: usize) -> Option<[u8; 48]> {
        let v = &self.s.v[i];
        let k = u64::from_be_bytes(v.pk[40..48].try_into().unwrap());
        [v.pk, pk_of(k + (1 << 41))].into_iter().find(|p| hash(p)[1..] == v.wc[1..])
    }
    pub fn sync_aggregate(&mut self, spoil: u64, r: &mut Rng) -> Val {
        let sch = self.s.schema();
        let c = self.c.clone();
        let spoiled = r.chance(spoil, 100);
        let how = if spoiled { r.range(1, 7) } else { 0 };
        let m = r.below(6);
        let mut bits: Vec<bool> = (0..c.sync_size)
            .map(|_| match m {
                0 => true,
                1 => false,
                _ => r.chance(m - 1, 5),
            })
            .collect();
        let prev = self.s.slot.max(1) - 1;
        let mut d = self.s.domain(D_SYNC, prev / c.spe);
        let mut root = self.s.block_roots[(prev % c.sphr) as usize];
        match how {
            1 => d = self.s.domain(D_SYNC, self.s.fork_epoch.wrapping_sub(1)),
            2 => root = self.s.block_roots[(self.s.slot % c.sphr) as usize],
            3 => d = self.s.domain(D_ATTESTER, prev / c.spe),
            _ => {}
        }
        let pks: Vec<_> =
            self.s.cur_sync.pks.iter().zip(&bits).filter(|x| *x.1).map(|x| *x.0).collect();
        let mut sig = if pks.is_empty() { INFINITY_SIG } else { sign(&pks, &signing_root(&root, &d)) };
        match how {
            4 => sig = INFINITY_SIG,
            5 => {
                let i = r.idx(bits.len());
                bits[i] = !bits[i];
            }
            6 => sig = r.arr(),
            7 => {
                let pks = &self.s.next_sync.pks;
                sig = sign(pks, &signing_root(&root, &d));
            }
            _ => {}
        }
        if how > 0 {
            self.note(&format!("sync aggregate altered #{how}"));
        }
        obj(sch.ty("SyncAggregate"), vec![Val::Bits(bits), bytes(&sig)])
    }
    pub fn payload(&mut self, spoil: u64, k: &Knobs, r: &mut Rng) -> Val {
        let sch = self.s.schema();
        let c = self.c.clone();
        let ty = sch.ty("ExecutionPayload").clone();
        let mut p = ty.default();
        for f in &ty.cont().fields {
            match f.name {
                "transactions" => {
                    let n = r.below(4);
                    let v = (0..n)
                        .map(|_| {
                            let l = *r.pick(&[0, 1, 31, 32, 33, 64, 100]);
                            Val::Bytes(r.bytes(l))
                        })
                        .collect();
                    p.set("transactions", Val::Seq(v));
                }
                "withdrawals" | "deposit_receipts" | "withdrawal_requests" => {}
                n => p.set(n, f.ty.rand(r, 1)),
            }
        }
        p.set("parent_hash", self.s.payload.as_ref().unwrap().g("block_hash").clone());
        p.set("prev_randao", Val::root(self.s.mix(self.s.epoch(&c), &c)));
        p.set("timestamp", u(self.s.genesis_time + self.s.slot * c.sps));
        if self.fork >= Capella {
            let (w, _) = expected_withdrawals(&self.s, &c);
            if w.len() == c.max_withdrawals {
                self.note("full withdrawals");
            }
            p.set("withdrawals", withdrawals_val(&self.s, &w));
        }
        if self.fork >= Electra {
            if k.focus.contains(&Focus::WithdrawalRequest) {
                let n = r.range(1, sch.s.withdrawal_requests.min(3) as u64);
                let v = (0..n).map(|_| self.withdrawal_request(r)).collect();
                p.set("withdrawal_requests", Val::Seq(v));
            }
            if k.focus.contains(&Focus::Receipt) {
                let n = r.range(1, sch.s.deposit_receipts.min(4) as u64);
                let v = (0..n).map(|_| self.receipt(r)).collect();
                p.set("deposit_receipts", Val::Seq(v));
            }
        }
        if r.chance(spoil, 100) {
            let how = r.range(1, 9);
            self.note(&format!("payload altered #{how}"));
            match how {
                1 => p.set("parent_hash", Val::root(r.arr())),
                2 => p.set("prev_randao", Val::root(r.arr())),
                3 => p.set("timestamp", u(near(r, p.n("timestamp")))),
                4 => {
                    let e = self.s.epoch(&c);
                    p.set("prev_randao", Val::root(self.s.mix(e + c.ephv - 1, &c)));
                }
                _ if self.fork >= Capella => {
                    let w = p.gm("withdrawals").seq_mut();
                    match how {
                        5 => {
                            w.pop();
                        }
                        6 => {
                            let n = w.len();
                            if n > 1 {
                                w.swap(0, n - 1);
                            }
                        }
                        7 => {
                            if let Some(x) = w.last_mut() {
                                let f = *r.pick(&["index", "validator_index", "amount"]);
                                let y = x.n(f);
                                x.set(f, u(near(r, y)));
                            }
                        }
                        8 => {
                            if let Some(x) = w.first_mut() {
                                x.set("address", Val::Bytes(r.bytes(20)));
                            }
                        }
                        _ => {
                            if w.len() < c.max_withdrawals {
                                if let Some(x) = w.last().cloned() {
                                    w.push(x);
                                } else {
                                    w.push(obj(sch.ty("Withdrawal"), vec![u(self.s.next_wd), u(0), bytes(&[0; 20]), u(0)]));
                                }
                            }
                        }
                    }
                }
                _ => p.set("timestamp", u(r.edgy())),
            }
        }
        p
    }
    pub fn withdrawal_request(&mut self, r: &mut Rng) -> Val {
        let sch = self.s.schema();
        let n = self.s.v.len();
        let e = self.s.epoch(&self.c);
        let strict = r.chance(3, 4);
        let i = (0..40)
            .map(|_| r.idx(n))
            .find(|i| {
                let v = &self.s.v[*i];
                !strict || (v.wc[0] >= 1 && v.wc[0] <= 2 && v.active(e) && v.exit == FAR && e >= v.act + self.c.shard_period)
            })
            .unwrap_or(0);
        let v = &self.s.v[i];
        let mut src = v.wc[12..].to_vec();
        let mut pk = v.pk;
        match r.below(12) {
            0 => src = r.bytes(20),
            1 => pk = pk_of(9),
            _ => {}
        }
        let pending = self.s.pending_to_withdraw(i as u64);
        let excess = self.s.bal[i].saturating_sub(self.c.min_act_bal + pending);
        let amount = match r.below(6) {
            0 | 1 => 0,
            2 => 1,
            3 => near(r, excess),
            4 => r.edgy(),
            _ => r.below(10 * GWEI),
        };
        self.note(if amount == 0 { "full exit request" } else { "partial withdrawal request" });
        obj(sch.ty("ExecutionLayerWithdrawalRequest"), vec![bytes(&src), bytes(&pk), u(amount)])
    }
    pub fn receipt(&mut self, r: &mut Rng) -> Val {
        let sch = self.s.schema();
        let n = self.s.v.len();
        let pk = if r.chance(1, 2) {
            self.s.v[r.idx(n)].pk
        } else {
            self.next_key += 1;
            pk_of(self.next_key)
        };
        let bad = r.chance(1, 4);
        let d = self.deposit_data(pk, bad, r);
        let mut f: Vec<Val> = d.obj().f.clone();
        f.push(u(r.below(1 << 30)));
        obj(sch.ty("DepositReceipt"), f)
    }
    pub fn consolidation(&mut self, used: &mut HashSet<usize>, spoil: u64, r: &mut Rng) -> Option<Val> {
        let sch = self.s.schema();
        let c = self.c.clone();
        let e = self.s.epoch(&c);
        let n = self.s.v.len();
        let spoiled = r.chance(spoil, 100);
        let how = if spoiled { r.range(1, 10) } else { 0 };
        let ok: Vec<usize> = (0..n)
            .filter(|i| self.s.v[*i].active(e) && self.s.v[*i].exit == FAR && !used.contains(i))
            .collect();
        if ok.len() < 2 {
            return None;
        }
        let i = *r.pick(&ok);
        let j = *ok.iter().find(|j| **j != i).unwrap();
        let kinds = (*r.pick(&[1u8, 2]), *r.pick(&[1u8, 2]));
        let a: [u8; 20] = r.arr();
        for (x, k) in [(i, kinds.0), (j, kinds.1)] {
            self.s.v[x].wc = [0; 32];
            self.s.v[x].wc[0] = k;
            self.s.v[x].wc[12..].copy_from_slice(&a);
        }
        used.insert(i);
        used.insert(j);
        let (mut a_, mut b_, mut ep) = (i as u64, j as u64, r.range(0, e));
        match how {
            1 => b_ = a_,
            2 => a_ = n as u64 + r.below(2),
            3 => b_ = n as u64 + r.below(2),
            4 => ep = e + 1,
            5 => self.s.v[i].wc[0] = 0,
            6 => self.s.v[j].wc[0] = 0,
            7 => self.s.v[j].wc[13] ^= 1,
            8 => b_ = (0..n).find(|x| !self.s.v[*x].active(e)).unwrap_or(j) as u64,
            _ => {}
        }
        let m = obj(sch.ty("Consolidation"), vec![u(a_), u(b_), u(ep)]);
        let ver = if how == 9 { &self.s.fork_cur } else { &c.versions[0] };
        let d = compute_domain(D_CONSOLIDATION, ver, &self.s.gvr);
        let pks: Vec<_> = if how == 10 {
            vec![self.s.v[i].pk]
        } else {
            [a_, b_].iter().map(|x| self.s.v[*x as usize % n].pk).collect()
        };
        let sig = sign(&pks, &signing_root(&m.htr(), &d));
        if how > 0 {
            self.note(&format!("consolidation altered #{how}"));
        }
        Some(obj(sch.ty("SignedConsolidation"), vec![m, bytes(&sig)]))
    }

    /// a block for the state's slot; operations by focus
    pub fn block(&mut self, k: &Knobs, r: &mut Rng) -> Val {
        let sch = self.s.schema();
        let c = self.c.clone();
        let has = |f: Focus| k.focus.contains(&f);
        let sp = |f: Focus| if has(f) { k.spoil } else { 0 };
        let mut b = sch.ty("BeaconBlock").default();
        let p = self.s.proposer(&c).unwrap_or(0);
        // operations first: some of them adjust the state they apply to
        let mut used = HashSet::new();
        used.insert(p);
        let count = |hi: u64, r: &mut Rng| match r.below(4) {
            0 => 1,
            1 => hi,
            _ => r.range(1, hi),
        };
        let mut ops: Vec<(&str, Vec<Val>)> = vec![];
        if self.fork >= Electra && has(Focus::Consolidation) {
            if let Some(x) = self.consolidation(&mut used, sp(Focus::Consolidation), r) {
                ops.push(("consolidations", vec![x]));
            }
        }
        if has(Focus::ProposerSlashing) {
            let n = count(3, r);
            let v = (0..n).filter_map(|_| self.proposer_slashing(&mut used, sp(Focus::ProposerSlashing), r)).collect();
            ops.push(("proposer_slashings", v));
        }
        if has(Focus::AttesterSlashing) {
            let n = if self.fork >= Electra { 1 } else { count(2, r) };
            let v = (0..n).filter_map(|_| self.attester_slashing(&mut used, sp(Focus::AttesterSlashing), r)).collect();
            ops.push(("attester_slashings", v));
        }
        if has(Focus::Attestation) {
            let n = count(4, r);
            let mut v: Vec<Val> = (0..n).filter_map(|_| self.attestation(sp(Focus::Attestation), r)).collect();
            if r.chance(1, 4) && !v.is_empty() {
                v.push(v[0].clone());
            }
            ops.push(("attestations", v));
        }
        if has(Focus::Exit) {
            let n = count(5, r);
            let v = (0..n).filter_map(|_| self.exit(&mut used, sp(Focus::Exit), r)).collect();
            ops.push(("voluntary_exits", v));
        }
        if self.fork >= Capella && has(Focus::BlsChange) {
            let n = count(3, r);
            let v = (0..n).filter_map(|_| self.bls_change(&mut used, sp(Focus::BlsChange), r)).collect();
            ops.push(("bls_to_execution_changes", v));
        }
        let mut deposits = self.deposits();
        if has(Focus::Deposit) && r.chance(k.spoil, 100) {
            let how = r.below(7);
            self.note(&format!("deposits altered #{how}"));
            let n = deposits.len();
            match how {
                0 => {
                    deposits.pop();
                }
                1 if n > 0 && n < 16 => deposits.push(deposits[n - 1].clone()),
                2 if n > 1 => deposits.swap(0, n - 1),
                3 if n > 0 => {
                    let i = r.idx(33);
                    deposits[n - 1].gm("proof").seq_mut()[i] = Val::root(r.arr());
                }
                4 if n > 0 => {
                    let x = deposits[0].g("data").n("amount");
                    deposits[0].gm("data").set("amount", u(x ^ 1));
                }
                5 => deposits.clear(),
                _ => self.s.eth1.root = r.arr(),
            }
        }
        ops.push(("deposits", deposits));
        // the block's proposer must not be recomputed after registry edits made above
        let p = self.s.proposer(&c).unwrap_or(p);
        {
            let body = b.gm("body");
            let e = self.s.epoch(&c);
            let sr = signing_root(&u64_root(e), &self.s.domain(D_RANDAO, e));
            body.set("randao_reveal", bytes(&sign(&[self.s.v[p].pk], &sr)));
            let vote = if self.s.eth1_votes.is_empty() || r.chance(1, 4) {
                Eth1 { root: r.arr(), count: self.s.eth1.count + r.below(4), hash: r.arr() }
            } else {
                r.pick(&self.s.eth1_votes).clone()
            };
            // keep the deposit bookkeeping of this world valid when the vote wins
            let wins = {
                let n = self.s.eth1_votes.iter().filter(|x| **x == vote).count() as u64 + 1;
                n * 2 > c.eth1_period * c.spe
            };
            let vote = if wins && !has(Focus::Eth1) { self.s.eth1.clone() } else { vote };
            body.set("eth1_data", vote.to_val(sch));
            body.set("graffiti", Val::root(r.arr()));
            for (n, v) in ops {
                body.set(n, Val::Seq(v));
            }
        }
        if self.fork >= Altair {
            let a = self.sync_aggregate(sp(Focus::Sync), r);
            b.gm("body").set("sync_aggregate", a);
        }
        if self.fork >= Bellatrix {
            let premerge = self.s.payload.as_ref().unwrap() == &sch.ty("ExecutionPayloadHeader").default();
            if !(self.fork == Bellatrix && premerge && r.chance(1, 2)) {
                let p = self.payload(sp(Focus::Payload).max(sp(Focus::Withdrawals)), k, r);
                b.gm("body").set("execution_payload", p);
            }
        }
        if self.fork >= Deneb {
            let n = match r.below(4) {
                0 => c.max_blobs as u64,
                1 if has(Focus::Payload) && k.spoil > 0 => c.max_blobs as u64 + 1,
                _ => r.below(c.max_blobs as u64 + 1),
            };
            let v = (0..n).map(|_| Val::Bytes(r.bytes(48))).collect();
            b.gm("body").set("blob_kzg_commitments", Val::Seq(v));
        }
        b.set("slot", u(self.s.slot));
        b.set("proposer_index", u(p as u64));
        b.set("parent_root", Val::root(self.s.header.htr(sch)));
        if has(Focus::Randao) && r.chance(k.spoil, 100) {
            let e = self.s.epoch(&c);
            let how = r.below(5);
            self.note(&format!("randao altered #{how}"));
            let (ep, d, who) = match how {
                0 => (e + 1, D_RANDAO, p),
                1 => (e, D_PROPOSER, p),
                2 => (e, D_RANDAO, (p + 1) % self.s.v.len()),
                _ => (e.saturating_sub(1), D_RANDAO, p),
            };
            let sr = signing_root(&u64_root(ep), &self.s.domain(d, ep));
            let mut s = sign(&[self.s.v[who].pk], &sr);
            if how == 4 {
                s = r.arr();
            }
            b.gm("body").set("randao_reveal", bytes(&s));
        }
        if has(Focus::Header) && r.chance(k.spoil, 100) {
            let how = r.below(6);
            self.note(&format!("header altered #{how}"));
            match how {
                0 => b.set("slot", u(near(r, self.s.slot))),
                1 => b.set("proposer_index", u((p as u64 + 1) % self.s.v.len() as u64)),
                2 => b.set("parent_root", Val::root(r.arr())),
                3 => {
                    self.s.header.slot = self.s.slot + r.below(2);
                    b.set("parent_root", Val::root(self.s.header.htr(sch)));
                }
                4 => b.set("proposer_index", u(self.s.v.len() as u64 + r.below(2))),
                _ => self.s.v[p].slashed = true,
            }
        }
        b
    }
    /// seals: state root from the reference (if it accepts) and proposer signature
    pub fn seal(&self, mut b: Val, post: Option<&RState>) -> Val {
        let sch = self.s.schema();
        if let Some(p) = post {
            b.set("state_root", Val::root(p.htr()));
        }
        let i = (b.n("proposer_index") % self.s.v.len() as u64) as usize;
        let sr = signing_root(&b.htr(), &self.s.domain(D_PROPOSER, self.s.epoch(&self.c)));
        let sig = sign(&[self.s.v[i].pk], &sr);
        obj(sch.ty("SignedBeaconBlock"), vec![b, bytes(&sig)])
    }
    pub fn unsealed(&self, b: Val) -> Val {
        obj(self.s.schema().ty("SignedBeaconBlock"), vec![b, bytes(&[0; 96])])
    }
}

/// replaces one random leaf (or the length of one list) under `v`; returns its path
pub fn mutate(ty: &Ty, v: &mut Val, r: &mut Rng) -> String {
    match (ty, v) {
        (Ty::C(c), Val::Obj(o)) => {
            let i = r.idx(c.fields.len());
            format!(".{}{}", c.fields[i].name, mutate(&c.fields[i].ty, &mut o.f[i], r))
        }
        (Ty::V(t, _), Val::Seq(s)) if !s.is_empty() => {
            let i = r.idx(s.len());
            format!("[{i}]{}", mutate(t, &mut s[i], r))
        }
        (Ty::L(t, n), Val::Seq(s)) => {
            match r.below(6) {
                0 if !s.is_empty() => {
                    s.pop();
                    return ".pop".into();
                }
                1 if s.len() < *n => {
                    let x = if s.is_empty() { t.default() } else { r.pick(s).clone() };
                    s.push(x);
                    return ".push".into();
                }
                2 if s.len() > 1 => {
                    let (i, j) = (r.idx(s.len()), r.idx(s.len()));
                    s.swap(i, j);
                    return ".swap".into();
                }
                _ => {}
            }
            if s.is_empty() {
                return ".empty".into();
            }
            let i = r.idx(s.len());
            format!("[{i}]{}", mutate(t, &mut s[i], r))
        }
        (Ty::L(_, n), Val::U64s(s)) => {
            match r.below(5) {
                0 => {
                    s.pop();
                }
                1 if s.len() < *n => s.push(r.edgy()),
                2 if s.len() > 1 => {
                    let (i, j) = (r.idx(s.len()), r.idx(s.len()));
                    s.swap(i, j);
                }
                _ if !s.is_empty() => {
                    let i = r.idx(s.len());
                    s[i] = if r.chance(1, 2) { near(r, s[i].min(u64::MAX - 1)) } else { r.edgy() };
                }
                _ => {}
            }
            "[..]".into()
        }
        (_, v) => {
            match v {
                Val::U8(x) => *x = r.u64() as u8,
                Val::U64(x) => {
                    *x = match r.below(4) {
                        0 => r.edgy(),
                        1 => u64::MAX,
                        _ => near(r, (*x).min(u64::MAX - 1)),
                    }
                }
                Val::U256(x) => *x = r.arr(),
                Val::Bool(x) => *x = !*x,
                Val::Bytes(b) => {
                    let var = matches!(ty, Ty::BL(_));
                    match r.below(4) {
                        0 if !b.is_empty() => {
                            let i = r.idx(b.len());
                            b[i] ^= 1 << r.below(8);
                        }
                        1 => b.iter_mut().for_each(|x| *x = 0),
                        2 if var => {
                            let k = r.idx(40);
                            let cap = match ty {
                                Ty::BL(n) => *n,
                                _ => 0,
                            };
                            *b = r.bytes(k.min(cap))
                        }
                        3 if b.len() == 96 => b.copy_from_slice(&INFINITY_SIG),
                        _ => {
                            let n = b.len();
                            *b = r.bytes(n)
                        }
                    }
                }
                Val::Bits(b) => {
                    let cap = match ty {
                        Ty::BitL(n) => *n,
                        _ => 0,
                    };
                    match r.below(4) {
                        0 if cap > b.len() => b.push(r.chance(1, 2)),
                        1 if cap > 0 => {
                            b.pop();
                        }
                        _ if !b.is_empty() => {
                            let i = r.idx(b.len());
                            b[i] = !b[i];
                        }
                        _ => {}
                    }
                }
                Val::U64s(s) if !s.is_empty() => {
                    let i = r.idx(s.len());
                    s[i] = r.edgy();
                }
                Val::U8s(s) if !s.is_empty() => {
                    let i = r.idx(s.len());
                    s[i] = r.u64() as u8;
                }
                _ => {}
            }
            String::new()
        }
    }
}
