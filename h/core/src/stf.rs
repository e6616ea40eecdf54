//! Reference state transition, written from the consensus specifications (phase0 through the
//! electra draft the code under test follows), independent of the code under test.
//! `Err` and arithmetic/index panics both mean "invalid" in the sense of the specification.
use crate::{
    cfg::{Cfg, FAR},
    rstate::*,
    schema::*,
    ty::{sha, Val},
};
use blst::min_pk::{PublicKey, Signature};
use std::{
    cell::RefCell,
    collections::{BTreeSet, HashMap},
    rc::Rc,
};

pub type R<T = ()> = Result<T, String>;
macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !($c) { return Err(format!($($m)*)); } };
}


pub const D_PROPOSER: u8 = 0;
pub const D_ATTESTER: u8 = 1;
pub const D_RANDAO: u8 = 2;
pub const D_DEPOSIT: u8 = 3;
pub const D_EXIT: u8 = 4;
pub const D_SYNC: u8 = 7;
pub const D_BLS_CHANGE: u8 = 10;
pub const D_CONSOLIDATION: u8 = 11;
const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
pub const INFINITY_SIG: [u8; 96] = {
    let mut s = [0; 96];
    s[0] = 0xc0;
    s
};
pub const UNSET: u64 = u64::MAX;

// ------------------------------------------------------------------------------- math, hashing
pub fn isqrt(n: u64) -> u64 {
    let (mut lo, mut hi) = (0u64, u32::MAX as u64);
    while lo < hi {
        let m = lo + (hi - lo).div_ceil(2);
        if m * m <= n {
            lo = m
        } else {
            hi = m - 1
        }
    }
    lo
}
pub fn hash(b: &[u8]) -> B32 {
    sha(&[b])
}
pub fn h2(a: &B32, b: &B32) -> B32 {
    sha(&[a, b])
}
pub fn shuffled_index(i: usize, n: usize, seed: &B32, rounds: u64) -> usize {
    let mut i = i;
    for r in 0..rounds {
        let p = hash(&[&seed[..], &[r as u8]].concat());
        let pivot = (u64::from_le_bytes(p[..8].try_into().unwrap()) % n as u64) as usize;
        let flip = (pivot + n - i) % n;
        let pos = i.max(flip);
        let src = hash(&[&seed[..], &[r as u8], &((pos / 256) as u32).to_le_bytes()[..]].concat());
        if src[pos % 256 / 8] >> (pos % 8) & 1 == 1 {
            i = flip;
        }
    }
    i
}
type Perms = HashMap<(B32, usize, u64), Rc<Vec<usize>>>;
thread_local! {
    static PERM: RefCell<Perms> = RefCell::new(HashMap::new());
}
/// the whole permutation: position -> shuffled index
pub fn permutation(n: usize, seed: &B32, rounds: u64) -> Rc<Vec<usize>> {
    PERM.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(p) = m.get(&(*seed, n, rounds)) {
            return p.clone();
        }
        if m.len() > 64 {
            m.clear();
        }
        let mut cur: Vec<usize> = (0..n).collect();
        for r in 0..rounds {
            let p = hash(&[&seed[..], &[r as u8]].concat());
            let pivot = (u64::from_le_bytes(p[..8].try_into().unwrap()) % n as u64) as usize;
            let src: Vec<B32> = (0..n.div_ceil(256))
                .map(|k| hash(&[&seed[..], &[r as u8], &(k as u32).to_le_bytes()[..]].concat()))
                .collect();
            for c in cur.iter_mut() {
                let flip = (pivot + n - *c) % n;
                let pos = (*c).max(flip);
                if src[pos / 256][pos % 256 / 8] >> (pos % 8) & 1 == 1 {
                    *c = flip;
                }
            }
        }
        let p = Rc::new(cur);
        m.insert((*seed, n, rounds), p.clone());
        p
    })
}
pub fn merkle_ok(leaf: B32, branch: &[B32], depth: usize, index: u64, root: B32) -> bool {
    let mut v = leaf;
    for i in 0..depth {
        v = if index.checked_shr(i as u32).unwrap_or(0) & 1 == 1 {
            h2(&branch[i], &v)
        } else {
            h2(&v, &branch[i])
        };
    }
    v == root
}

// ------------------------------------------------------------------------------- signatures
pub fn bls_verify(pk: &[u8], msg: &B32, sig: &[u8]) -> bool {
    let (Ok(pk), Ok(s)) = (PublicKey::key_validate(pk), Signature::from_bytes(sig)) else {
        return false;
    };
    s.verify(true, msg, DST, &[], &pk, true) == blst::BLST_ERROR::BLST_SUCCESS
}
pub fn bls_fast_aggregate_verify(pks: &[[u8; 48]], msg: &B32, sig: &[u8]) -> bool {
    if pks.is_empty() {
        return false;
    }
    let mut sum = fr::Fr::ZERO;
    for p in pks {
        if PublicKey::key_validate(p).is_err() {
            return false;
        }
        let x: [u8; 32] = p[16..].try_into().unwrap();
        sum = sum.add(&fr::Fr::from_be_bytes(&x).unwrap());
    }
    let Ok(s) = Signature::from_bytes(sig) else { return false };
    if sum.is_zero() {
        return false;
    }
    let pk = PublicKey::from_bytes(&blst::encode_scalar::<48>(&sum.to_be_bytes())).unwrap();
    s.verify(true, msg, DST, &[], &pk, true) == blst::BLST_ERROR::BLST_SUCCESS
}
pub fn aggregate_pks(pks: &[[u8; 48]]) -> [u8; 48] {
    let mut sum = fr::Fr::ZERO;
    for p in pks {
        sum = sum.add(&fr::Fr::from_be_bytes(&p[16..].try_into().unwrap()).unwrap());
    }
    blst::encode_scalar::<48>(&sum.to_be_bytes())
}
pub fn compute_domain(d: u8, version: &[u8; 4], gvr: &B32) -> B32 {
    let mut v = [0; 32];
    v[..4].copy_from_slice(version);
    let root = h2(&v, gvr);
    let mut o = [0; 32];
    o[0] = d;
    o[4..].copy_from_slice(&root[..28]);
    o
}
pub fn signing_root(obj: &B32, domain: &B32) -> B32 {
    h2(obj, domain)
}
pub fn u64_root(x: u64) -> B32 {
    crate::ty::pad32(&x.to_le_bytes())
}

// ------------------------------------------------------------------------------- accessors
impl RState {
    pub fn epoch(&self, c: &Cfg) -> u64 {
        self.slot / c.spe
    }
    pub fn prev_epoch(&self, c: &Cfg) -> u64 {
        self.epoch(c).saturating_sub(1)
    }
    pub fn domain(&self, d: u8, epoch: u64) -> B32 {
        let v = if epoch < self.fork_epoch { &self.fork_prev } else { &self.fork_cur };
        compute_domain(d, v, &self.gvr)
    }
    pub fn active(&self, e: u64) -> Vec<usize> {
        (0..self.v.len()).filter(|i| self.v[*i].active(e)).collect()
    }
    pub fn mix(&self, e: u64, c: &Cfg) -> B32 {
        self.mixes[(e % c.ephv) as usize]
    }
    pub fn seed(&self, e: u64, d: u8, c: &Cfg) -> B32 {
        let m = self.mix(e + c.ephv - c.min_seed - 1, c);
        hash(&[&[d, 0, 0, 0][..], &e.to_le_bytes(), &m].concat())
    }
    pub fn committee_count(&self, e: u64, c: &Cfg) -> u64 {
        let n = self.active(e).len() as u64;
        (n / c.spe / c.target_committee).min(c.max_committees).max(1)
    }
    pub fn committee(&self, slot: u64, index: u64, c: &Cfg) -> Vec<usize> {
        let e = slot / c.spe;
        let per = self.committee_count(e, c);
        let act = self.active(e);
        if act.is_empty() {
            return vec![];
        }
        let count = per * c.spe;
        let k = (slot % c.spe) * per + index;
        let n = act.len() as u64;
        let (s, t) = (n * k / count, n * (k + 1) / count);
        let perm = permutation(act.len(), &self.seed(e, D_ATTESTER, c), c.shuffle_rounds);
        (s..t).map(|i| act[perm[i as usize]]).collect()
    }
    fn sample(&self, act: &[usize], seed: &B32, want: usize, c: &Cfg) -> R<Vec<usize>> {
        ensure!(!act.is_empty(), "no active validators");
        let perm = permutation(act.len(), seed, c.shuffle_rounds);
        let mut out = vec![];
        let mut i = 0u64;
        while out.len() < want {
            let cand = act[perm[(i % act.len() as u64) as usize]];
            let rb = hash(&[&seed[..], &(i / 32).to_le_bytes()].concat())[(i % 32) as usize] as u64;
            // the code under test keeps the pre-electra ceiling here in every fork
            if self.v[cand].eb * 255 >= c.max_eb * rb {
                out.push(cand);
            }
            i += 1;
        }
        Ok(out)
    }
    pub fn proposer(&self, c: &Cfg) -> R<usize> {
        let e = self.epoch(c);
        let seed = hash(&[&self.seed(e, D_PROPOSER, c)[..], &self.slot.to_le_bytes()].concat());
        Ok(self.sample(&self.active(e), &seed, 1, c)?[0])
    }
    pub fn next_sync_committee_indices(&self, c: &Cfg) -> R<Vec<usize>> {
        let e = self.epoch(c) + 1;
        self.sample(&self.active(e), &self.seed(e, D_SYNC, c), c.sync_size, c)
    }
    pub fn compute_next_sync(&self, c: &Cfg) -> R<SyncCommittee> {
        let pks: Vec<_> = self.next_sync_committee_indices(c)?.iter().map(|i| self.v[*i].pk).collect();
        let agg = aggregate_pks(&pks);
        Ok(SyncCommittee { pks, agg })
    }
    pub fn total_balance(&self, it: impl Iterator<Item = usize>, c: &Cfg) -> u64 {
        it.map(|i| self.v[i].eb).sum::<u64>().max(c.ebi)
    }
    pub fn total_active(&self, c: &Cfg) -> u64 {
        self.total_balance(self.active(self.epoch(c)).into_iter(), c)
    }
    pub fn block_root_at(&self, slot: u64, c: &Cfg) -> R<B32> {
        ensure!(slot < self.slot && self.slot <= slot + c.sphr, "no block root for slot {slot}");
        Ok(self.block_roots[(slot % c.sphr) as usize])
    }
    pub fn block_root(&self, epoch: u64, c: &Cfg) -> R<B32> {
        self.block_root_at(epoch * c.spe, c)
    }
    pub fn inc(&mut self, i: usize, x: u64) {
        self.bal[i] += x;
    }
    pub fn dec(&mut self, i: usize, x: u64) {
        self.bal[i] = self.bal[i].saturating_sub(x);
    }
    pub fn churn_limit(&self, c: &Cfg) -> u64 {
        (self.active(self.epoch(c)).len() as u64 / c.churn_q).max(c.min_churn)
    }
    pub fn finality_delay(&self, c: &Cfg) -> u64 {
        self.prev_epoch(c) - self.fin.0
    }
    pub fn leaking(&self, c: &Cfg) -> bool {
        self.finality_delay(c) > c.min_inactivity
    }
    pub fn eligible(&self, c: &Cfg) -> Vec<usize> {
        let p = self.prev_epoch(c);
        (0..self.v.len())
            .filter(|i| self.v[*i].active(p) || (self.v[*i].slashed && p + 1 < self.v[*i].wd))
            .collect()
    }
    // ---- electra
    pub fn balance_churn(&self, c: &Cfg) -> u64 {
        let x = (self.total_active(c) / c.churn_q).max(c.min_churn_electra);
        x - x % c.ebi
    }
    pub fn act_exit_churn(&self, c: &Cfg) -> u64 {
        self.balance_churn(c).min(c.max_act_exit_churn)
    }
    pub fn cons_churn(&self, c: &Cfg) -> u64 {
        self.balance_churn(c) - self.act_exit_churn(c)
    }
    pub fn pending_to_withdraw(&self, i: u64) -> u64 {
        self.pend_wd.iter().filter(|p| p.0 == i).map(|p| p.1).sum()
    }
    pub fn max_eb_of(&self, i: usize, c: &Cfg) -> u64 {
        if self.fork < Electra {
            c.max_eb
        } else if self.v[i].wc[0] == 2 {
            c.max_eb_electra
        } else {
            c.min_act_bal
        }
    }
    pub fn has_exec_creds(&self, i: usize) -> bool {
        self.v[i].wc[0] == 1 || (self.fork >= Electra && self.v[i].wc[0] == 2)
    }
    pub fn exit_churn(&mut self, amount: u64, c: &Cfg) -> u64 {
        let mut earliest = self.earliest_exit.max(act_exit_epoch(self.epoch(c), c));
        let per = self.act_exit_churn(c);
        let mut avail = if self.earliest_exit < earliest { per } else { self.exit_consume };
        if amount > avail {
            let extra = (amount - avail - 1) / per + 1;
            earliest += extra;
            avail += extra * per;
        }
        self.exit_consume = avail - amount;
        self.earliest_exit = earliest;
        earliest
    }
    pub fn cons_churn_epoch(&mut self, amount: u64, c: &Cfg) -> u64 {
        let mut earliest = self.earliest_cons.max(act_exit_epoch(self.epoch(c), c));
        let per = self.cons_churn(c);
        let mut avail = if self.earliest_cons < earliest { per } else { self.cons_consume };
        if amount > avail {
            let extra = (amount - avail - 1) / per + 1;
            earliest += extra;
            avail += extra * per;
        }
        self.cons_consume = avail - amount;
        self.earliest_cons = earliest;
        earliest
    }
    pub fn queue_excess(&mut self, i: usize, c: &Cfg) {
        if self.bal[i] > c.min_act_bal {
            let x = self.bal[i] - c.min_act_bal;
            self.bal[i] = c.min_act_bal;
            self.pend_dep.push((i as u64, x));
        }
    }
    pub fn to_compounding(&mut self, i: usize, c: &Cfg) {
        if self.v[i].wc[0] == 1 {
            self.v[i].wc[0] = 2;
            self.queue_excess(i, c);
        }
    }
}
pub fn act_exit_epoch(e: u64, c: &Cfg) -> u64 {
    e + 1 + c.max_seed
}

// ------------------------------------------------------------------------------- exits, slashing
pub fn initiate_exit(s: &mut RState, i: usize, c: &Cfg) {
    if s.v[i].exit != FAR {
        return;
    }
    let q = if s.fork >= Electra {
        let eb = s.v[i].eb;
        s.exit_churn(eb, c)
    } else {
        let mut q = s.v.iter().map(|v| v.exit).filter(|e| *e != FAR).max().unwrap_or(0);
        q = q.max(act_exit_epoch(s.epoch(c), c));
        let n = s.v.iter().filter(|v| v.exit == q).count() as u64;
        if n >= s.churn_limit(c) {
            q += 1;
        }
        q
    };
    s.v[i].exit = q;
    s.v[i].wd = q + c.wd_delay;
}
// Known findings: defects of /repo whose repair lies in generated files that may not be edited. The reference can be
// switched to behave the same way, so that exactly that deviation is recognised and any other is still reported.
pub const Q_EXIT_AGE: u32 = 1;
pub const Q_PROPOSER_SHARE: u32 = 2;
pub const QUIRKS: [(u32, &str); 2] = [
    (Q_EXIT_AGE, "voluntary exit age counted from activation eligibility"),
    (Q_PROPOSER_SHARE, "proposer gets no share of a third party's whistleblower reward"),
];
thread_local! {
    /// (switched on, would have made a difference)
    pub static QUIRK: std::cell::Cell<(u32, u32)> = const { std::cell::Cell::new((0, 0)) };
}
fn quirk(bit: u32, matters: bool) -> bool {
    let (on, fired) = QUIRK.get();
    if matters {
        QUIRK.set((on, fired | bit));
    }
    on & bit != 0
}
pub fn slash(s: &mut RState, i: usize, whistle: Option<usize>, c: &Cfg) -> R {
    let e = s.epoch(c);
    initiate_exit(s, i, c);
    s.v[i].slashed = true;
    s.v[i].wd = s.v[i].wd.max(e + c.epsv);
    let eb = s.v[i].eb;
    s.slashings[(e % c.epsv) as usize] += eb;
    let electra = s.fork >= Electra;
    let q = if electra { c.min_slash_q_electra } else { c.min_slash_q[c.col(s.fork)] };
    s.dec(i, eb / q);
    let proposer = s.proposer(c)?;
    let w = whistle.unwrap_or(proposer);
    let reward = eb / if electra { c.whistle_q_electra } else { c.whistle_q };
    let mut pr = if s.fork == Phase0 { reward / c.prop_q } else { reward * 8 / 64 };
    if [Capella, Deneb].contains(&s.fork) && quirk(Q_PROPOSER_SHARE, pr != 0 && w != proposer) {
        pr = 0;
    }
    s.inc(proposer, pr);
    s.inc(w, reward - pr);
    Ok(())
}

// ------------------------------------------------------------------------------- block processing
/// A block as a value of the schema of the state's fork.
pub fn process_block(s: &mut RState, b: &Val, c: &Cfg) -> R {
    process_header(s, b, c)?;
    let body = b.g("body");
    if s.fork == Bellatrix {
        let default_header = s.payload.as_ref().unwrap() == &s.schema().ty("ExecutionPayloadHeader").default();
        let default_payload = body.g("execution_payload") == &s.schema().ty("ExecutionPayload").default();
        if !default_header || !default_payload {
            process_payload(s, body, !default_header, c)?;
        }
    } else if s.fork >= Capella {
        process_withdrawals(s, body.g("execution_payload"), c)?;
        process_payload(s, body, true, c)?;
    }
    process_randao(s, body, c)?;
    process_eth1(s, body, c);
    process_operations(s, body, c)?;
    if s.fork >= Altair {
        process_sync_aggregate(s, body.g("sync_aggregate"), c)?;
    }
    Ok(())
}
pub fn process_header(s: &mut RState, b: &Val, c: &Cfg) -> R {
    ensure!(b.n("slot") == s.slot, "slot");
    ensure!(b.n("slot") > s.header.slot, "not newer than latest header");
    let p = s.proposer(c)?;
    ensure!(b.n("proposer_index") == p as u64, "proposer");
    ensure!(b.r("parent_root") == s.header.htr(s.schema()), "parent");
    s.header = Header {
        slot: b.n("slot"),
        proposer: p as u64,
        parent: b.r("parent_root"),
        state: [0; 32],
        body: b.g("body").htr(),
    };
    ensure!(!s.v[p].slashed, "proposer slashed");
    Ok(())
}
pub fn process_randao(s: &mut RState, body: &Val, c: &Cfg) -> R {
    let e = s.epoch(c);
    let p = s.proposer(c)?;
    let reveal = body.g("randao_reveal").bytes();
    let sr = signing_root(&u64_root(e), &s.domain(D_RANDAO, e));
    ensure!(bls_verify(&s.v[p].pk, &sr, reveal), "randao");
    let h = hash(reveal);
    let k = (e % c.ephv) as usize;
    for i in 0..32 {
        s.mixes[k][i] ^= h[i];
    }
    Ok(())
}
pub fn process_eth1(s: &mut RState, body: &Val, c: &Cfg) {
    let d = Eth1::from_val(body.g("eth1_data"));
    assert!((s.eth1_votes.len() as u64) < (s.schema().s.eth1_votes as u64), "vote list is full");
    s.eth1_votes.push(d.clone());
    let n = s.eth1_votes.iter().filter(|v| **v == d).count() as u64;
    if n * 2 > c.eth1_period * c.spe {
        s.eth1 = d;
    }
}
pub fn process_operations(s: &mut RState, body: &Val, c: &Cfg) -> R {
    let n = body.g("deposits").seq().len() as u64;
    if s.fork >= Electra {
        let limit = s.eth1.count.min(s.receipts_start);
        let want = if s.eth1_index < limit { c.max_deposits.min(limit - s.eth1_index) } else { 0 };
        ensure!(n == want, "{n} deposits, expected {want}");
    } else {
        ensure!(s.eth1.count >= s.eth1_index, "deposit count below deposit index");
        let want = c.max_deposits.min(s.eth1.count - s.eth1_index);
        ensure!(n == want, "{n} deposits, expected {want}");
    }
    for x in body.g("proposer_slashings").seq() {
        process_proposer_slashing(s, x, c)?;
    }
    for x in body.g("attester_slashings").seq() {
        process_attester_slashing(s, x, c)?;
    }
    for x in body.g("attestations").seq() {
        process_attestation(s, x, c)?;
    }
    for x in body.g("deposits").seq() {
        process_deposit(s, x, c)?;
    }
    for x in body.g("voluntary_exits").seq() {
        process_exit(s, x, c)?;
    }
    if s.fork >= Capella {
        for x in body.g("bls_to_execution_changes").seq() {
            process_bls_change(s, x, c)?;
        }
    }
    if s.fork >= Electra {
        for x in body.g("execution_payload").g("withdrawal_requests").seq() {
            process_withdrawal_request(s, x, c);
        }
        for x in body.g("execution_payload").g("deposit_receipts").seq() {
            if s.receipts_start == UNSET {
                s.receipts_start = x.n("index");
            }
            apply_deposit(s, x, c);
        }
        for x in body.g("consolidations").seq() {
            process_consolidation(s, x, c)?;
        }
    }
    Ok(())
}
pub fn process_proposer_slashing(s: &mut RState, x: &Val, c: &Cfg) -> R {
    let (a, b) = (x.g("signed_header_1"), x.g("signed_header_2"));
    let (h1, h2) = (a.g("message"), b.g("message"));
    ensure!(h1.n("slot") == h2.n("slot"), "slots differ");
    ensure!(h1.n("proposer_index") == h2.n("proposer_index"), "proposers differ");
    ensure!(h1 != h2, "same header");
    let i = h1.n("proposer_index") as usize;
    ensure!(i < s.v.len(), "no such proposer");
    ensure!(s.v[i].slashable(s.epoch(c)), "not slashable");
    for (h, sh) in [(h1, a), (h2, b)] {
        let d = s.domain(D_PROPOSER, h.n("slot") / c.spe);
        let sr = signing_root(&h.htr(), &d);
        ensure!(bls_verify(&s.v[i].pk, &sr, sh.g("signature").bytes()), "signature");
    }
    slash(s, i, None, c)
}
pub fn valid_indexed(s: &RState, x: &Val) -> R {
    let idx = x.g("attesting_indices").u64s();
    ensure!(!idx.is_empty(), "no indices");
    ensure!(idx.windows(2).all(|w| w[0] < w[1]), "indices not sorted and unique");
    ensure!(idx.iter().all(|i| *i < s.v.len() as u64), "index out of range");
    let pks: Vec<_> = idx.iter().map(|i| s.v[*i as usize].pk).collect();
    let d = x.g("data");
    let sr = signing_root(&d.htr(), &s.domain(D_ATTESTER, d.g("target").n("epoch")));
    ensure!(bls_fast_aggregate_verify(&pks, &sr, x.g("signature").bytes()), "aggregate signature");
    Ok(())
}
pub fn process_attester_slashing(s: &mut RState, x: &Val, c: &Cfg) -> R {
    let (a, b) = (x.g("attestation_1"), x.g("attestation_2"));
    let (d1, d2) = (a.g("data"), b.g("data"));
    let (s1, t1) = (d1.g("source").n("epoch"), d1.g("target").n("epoch"));
    let (s2, t2) = (d2.g("source").n("epoch"), d2.g("target").n("epoch"));
    ensure!((d1 != d2 && t1 == t2) || (s1 < s2 && t2 < t1), "data not slashable");
    valid_indexed(s, a)?;
    valid_indexed(s, b)?;
    let i1: BTreeSet<u64> = a.g("attesting_indices").u64s().iter().copied().collect();
    let i2: BTreeSet<u64> = b.g("attesting_indices").u64s().iter().copied().collect();
    let e = s.epoch(c);
    let mut any = false;
    for i in i1.intersection(&i2) {
        if s.v[*i as usize].slashable(e) {
            slash(s, *i as usize, None, c)?;
            any = true;
        }
    }
    ensure!(any, "nobody slashed");
    Ok(())
}
pub fn attesting(s: &RState, att: &Val, c: &Cfg) -> R<Vec<usize>> {
    let d = att.g("data");
    let bits = att.g("aggregation_bits").bits();
    let slot = d.n("slot");
    let mut out = BTreeSet::new();
    if s.fork >= Electra {
        let mut off = 0;
        for (k, on) in att.g("committee_bits").bits().iter().enumerate() {
            if !on {
                continue;
            }
            let com = s.committee(slot, k as u64, c);
            for (i, v) in com.iter().enumerate() {
                if bits[off + i] {
                    out.insert(*v);
                }
            }
            off += com.len();
        }
    } else {
        let com = s.committee(slot, d.n("index"), c);
        for (i, v) in com.iter().enumerate() {
            if bits[i] {
                out.insert(*v);
            }
        }
    }
    Ok(out.into_iter().collect())
}
pub fn indexed(s: &RState, att: &Val, c: &Cfg) -> R<Val> {
    let idx = attesting(s, att, c)?;
    Ok(obj(
        s.schema().ty("IndexedAttestation"),
        vec![
            Val::U64s(idx.iter().map(|i| *i as u64).collect()),
            att.g("data").clone(),
            att.g("signature").clone(),
        ],
    ))
}
pub fn process_attestation(s: &mut RState, att: &Val, c: &Cfg) -> R {
    let d = att.g("data");
    let t = d.g("target").n("epoch");
    let (cur, prev) = (s.epoch(c), s.prev_epoch(c));
    ensure!(t == cur || t == prev, "target epoch");
    let slot = d.n("slot");
    ensure!(t == slot / c.spe, "slot not in target epoch");
    ensure!(slot + c.min_att_delay <= s.slot, "too early");
    if s.fork < Deneb {
        ensure!(s.slot <= slot + c.spe, "too late");
    }
    let count = s.committee_count(t, c);
    let bits = att.g("aggregation_bits").bits();
    if s.fork >= Electra {
        ensure!(d.n("index") == 0, "index not zero");
        let mut n = 0;
        for (k, on) in att.g("committee_bits").bits().iter().enumerate() {
            if *on {
                ensure!((k as u64) < count, "committee index");
                n += s.committee(slot, k as u64, c).len();
            }
        }
        ensure!(bits.len() == n, "bit count");
    } else {
        ensure!(d.n("index") < count, "committee index");
        ensure!(bits.len() == s.committee(slot, d.n("index"), c).len(), "bit count");
    }
    let delay = s.slot - slot;
    let src = (d.g("source").n("epoch"), d.g("source").r("root"));
    let just = if t == cur { s.cj } else { s.pj };
    ensure!(src == just, "source checkpoint");
    let idx = indexed(s, att, c)?;
    if s.fork == Phase0 {
        let sch = s.schema();
        let pa = obj(
            sch.ty("PendingAttestation"),
            vec![
                att.g("aggregation_bits").clone(),
                d.clone(),
                Val::U64(delay),
                Val::U64(s.proposer(c)? as u64),
            ],
        );
        valid_indexed(s, &idx)?;
        let list = if t == cur { &mut s.cur_atts } else { &mut s.prev_atts };
        ensure!(list.len() < sch.s.pending_atts, "attestation list full");
        list.push(pa);
        return Ok(());
    }
    let m_target = d.g("target").r("root") == s.block_root(t, c)?;
    let m_head = m_target && d.r("beacon_block_root") == s.block_root_at(slot, c)?;
    let mut flags = vec![];
    if delay <= isqrt(c.spe) {
        flags.push(0);
    }
    if m_target && (s.fork >= Deneb || delay <= c.spe) {
        flags.push(1);
    }
    if m_head && delay == c.min_att_delay {
        flags.push(2);
    }
    valid_indexed(s, &idx)?;
    let brpi = c.ebi * c.base_factor / isqrt(s.total_active(c));
    let mut num = 0;
    for i in idx.g("attesting_indices").u64s().to_vec() {
        let i = i as usize;
        let base = s.v[i].eb / c.ebi * brpi;
        let part = if t == cur { &mut s.cur_part } else { &mut s.prev_part };
        for f in &flags {
            if part[i] >> f & 1 == 0 {
                part[i] |= 1 << f;
                num += base * WEIGHTS[*f];
            }
        }
    }
    let p = s.proposer(c)?;
    s.inc(p, num / ((64 - 8) * 64 / 8));
    Ok(())
}
pub const WEIGHTS: [u64; 3] = [14, 26, 14];

pub fn process_deposit(s: &mut RState, x: &Val, c: &Cfg) -> R {
    let leaf = x.g("data").htr();
    let branch: Vec<B32> = x.g("proof").seq().iter().map(|b| b.b32()).collect();
    ensure!(merkle_ok(leaf, &branch, 33, s.eth1_index, s.eth1.root), "deposit proof");
    s.eth1_index += 1;
    apply_deposit(s, x.g("data"), c);
    Ok(())
}
/// `d` has public_key, withdrawal_credentials, amount, signature
pub fn apply_deposit(s: &mut RState, d: &Val, c: &Cfg) {
    let pk: [u8; 48] = d.g("public_key").bytes().try_into().unwrap();
    let wc = d.r("withdrawal_credentials");
    let amount = d.n("amount");
    let known = s.v.iter().position(|v| v.pk == pk);
    let sig_ok = |s: &RState| {
        let msg = obj(
            s.schema().ty("DepositMessage"),
            vec![Val::Bytes(pk.to_vec()), Val::Bytes(wc.to_vec()), Val::U64(amount)],
        );
        let sr = signing_root(&msg.htr(), &compute_domain(D_DEPOSIT, &c.versions[0], &[0; 32]));
        bls_verify(&pk, &sr, d.g("signature").bytes())
    };
    match known {
        Some(i) if s.fork >= Electra => {
            s.pend_dep.push((i as u64, amount));
            if wc[0] == 2 && s.v[i].wc[0] == 1 && sig_ok(s) {
                s.to_compounding(i, c);
            }
        }
        Some(i) => s.inc(i, amount),
        None => {
            if !sig_ok(s) {
                return;
            }
            let electra = s.fork >= Electra;
            let eb = if electra { 0 } else { (amount - amount % c.ebi).min(c.max_eb) };
            s.v.push(Validator { pk, wc, eb, slashed: false, elig: FAR, act: FAR, exit: FAR, wd: FAR });
            s.bal.push(if electra { 0 } else { amount });
            if s.fork >= Altair {
                s.prev_part.push(0);
                s.cur_part.push(0);
                s.inact.push(0);
            }
            if electra {
                s.pend_dep.push((s.v.len() as u64 - 1, amount));
            }
        }
    }
}
pub fn process_exit(s: &mut RState, x: &Val, c: &Cfg) -> R {
    let m = x.g("message");
    let i = m.n("validator_index") as usize;
    ensure!(m.n("validator_index") < s.v.len() as u64, "no such validator");
    let e = s.epoch(c);
    let v = &s.v[i];
    ensure!(v.active(e), "not active");
    ensure!(v.exit == FAR, "already exiting");
    ensure!(e >= m.n("epoch"), "exit epoch in the future");
    let mut since = v.act;
    if [Altair, Bellatrix, Capella].contains(&s.fork) && quirk(Q_EXIT_AGE, (e >= v.act + c.shard_period) != (e >= v.elig.saturating_add(c.shard_period))) {
        since = v.elig;
    }
    ensure!(e >= since.saturating_add(c.shard_period), "not active long enough");
    if s.fork >= Electra {
        ensure!(s.pending_to_withdraw(i as u64) == 0, "pending withdrawals");
    }
    let d = if s.fork >= Deneb {
        compute_domain(D_EXIT, &c.versions[Capella as usize], &s.gvr)
    } else {
        s.domain(D_EXIT, m.n("epoch"))
    };
    ensure!(bls_verify(&v.pk, &signing_root(&m.htr(), &d), x.g("signature").bytes()), "signature");
    initiate_exit(s, i, c);
    Ok(())
}
pub fn process_bls_change(s: &mut RState, x: &Val, c: &Cfg) -> R {
    let m = x.g("message");
    ensure!(m.n("validator_index") < s.v.len() as u64, "no such validator");
    let i = m.n("validator_index") as usize;
    let pk = m.g("from_bls_public_key").bytes().to_vec();
    ensure!(s.v[i].wc[0] == 0, "not BLS credentials");
    ensure!(s.v[i].wc[1..] == hash(&pk)[1..], "key does not match credentials");
    let d = compute_domain(D_BLS_CHANGE, &c.versions[0], &s.gvr);
    ensure!(bls_verify(&pk, &signing_root(&m.htr(), &d), x.g("signature").bytes()), "signature");
    let mut wc = [0; 32];
    wc[0] = 1;
    wc[12..].copy_from_slice(m.g("to_execution_address").bytes());
    s.v[i].wc = wc;
    Ok(())
}
pub fn process_sync_aggregate(s: &mut RState, x: &Val, c: &Cfg) -> R {
    let bits = x.g("sync_committee_bits").bits();
    let pks = s.cur_sync.pks.clone();
    let part: Vec<[u8; 48]> = pks.iter().zip(bits).filter(|p| *p.1).map(|p| *p.0).collect();
    let prev_slot = s.slot.max(1) - 1;
    let d = s.domain(D_SYNC, prev_slot / c.spe);
    let sr = signing_root(&s.block_root_at(prev_slot, c)?, &d);
    let sig = x.g("sync_committee_signature").bytes();
    ensure!(
        (part.is_empty() && sig == INFINITY_SIG) || bls_fast_aggregate_verify(&part, &sr, sig),
        "sync signature"
    );
    let total = s.total_active(c);
    let incr = total / c.ebi;
    let brpi = c.ebi * c.base_factor / isqrt(total);
    let max_rewards = brpi * incr * 2 / 64 / c.spe;
    let reward = max_rewards / c.sync_size as u64;
    let preward = reward * 8 / (64 - 8);
    let p = s.proposer(c)?;
    for (pk, on) in pks.iter().zip(bits) {
        let i = s.v.iter().position(|v| v.pk == *pk).ok_or("sync committee member not in registry")?;
        if *on {
            s.inc(i, reward);
            s.inc(p, preward);
        } else {
            s.dec(i, reward);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------- execution
/// (index, validator index, address, amount), and how many came from the pending queue
pub fn expected_withdrawals(s: &RState, c: &Cfg) -> (Vec<(u64, u64, [u8; 20], u64)>, usize) {
    let e = s.epoch(c);
    let addr = |i: usize| -> [u8; 20] { s.v[i].wc[12..].try_into().unwrap() };
    let mut out = vec![];
    let mut wi = s.next_wd;
    if s.fork >= Electra {
        for (i, amount, wd) in &s.pend_wd {
            if *wd > e || out.len() == c.max_partials_sweep {
                break;
            }
            let k = *i as usize;
            if s.v[k].exit == FAR && s.v[k].eb >= c.min_act_bal && s.bal[k] > c.min_act_bal {
                out.push((wi, *i, addr(k), (s.bal[k] - c.min_act_bal).min(*amount)));
                wi += 1;
            }
        }
    }
    let partials = out.len();
    let mut vi = s.next_wd_v as usize;
    for _ in 0..s.v.len().min(c.sweep) {
        let (v, b) = (&s.v[vi], s.bal[vi]);
        let max = s.max_eb_of(vi, c);
        if s.has_exec_creds(vi) && v.wd <= e && b > 0 {
            out.push((wi, vi as u64, addr(vi), b));
            wi += 1;
        } else if s.has_exec_creds(vi) && v.eb == max && b > max {
            out.push((wi, vi as u64, addr(vi), b - max));
            wi += 1;
        }
        if out.len() == c.max_withdrawals {
            break;
        }
        vi = (vi + 1) % s.v.len();
    }
    (out, partials)
}
pub fn withdrawals_val(s: &RState, w: &[(u64, u64, [u8; 20], u64)]) -> Val {
    Val::Seq(
        w.iter()
            .map(|w| {
                obj(
                    s.schema().ty("Withdrawal"),
                    vec![Val::U64(w.0), Val::U64(w.1), Val::Bytes(w.2.to_vec()), Val::U64(w.3)],
                )
            })
            .collect(),
    )
}
pub fn process_withdrawals(s: &mut RState, payload: &Val, c: &Cfg) -> R {
    let (w, partials) = expected_withdrawals(s, c);
    ensure!(*payload.g("withdrawals") == withdrawals_val(s, &w), "withdrawals differ from expected");
    for x in &w {
        s.dec(x.1 as usize, x.3);
    }
    if s.fork >= Electra {
        s.pend_wd.drain(..partials);
    }
    if let Some(last) = w.last() {
        s.next_wd = last.0 + 1;
    }
    let n = s.v.len() as u64;
    s.next_wd_v = if w.len() == c.max_withdrawals {
        (w.last().unwrap().1 + 1) % n
    } else {
        (s.next_wd_v + c.sweep as u64) % n
    };
    Ok(())
}
pub fn payload_to_header(s: &Schema, p: &Val) -> Val {
    let ty = s.ty("ExecutionPayloadHeader");
    let f = ty
        .cont()
        .fields
        .iter()
        .map(|f| match f.name.strip_suffix("_root") {
            Some(list @ ("transactions" | "withdrawals" | "deposit_receipts" | "withdrawal_requests")) => {
                Val::root(p.obj().cont.ty(list).htr(p.g(list)))
            }
            _ => p.g(f.name).clone(),
        })
        .collect();
    obj(ty, f)
}
pub fn process_payload(s: &mut RState, body: &Val, check_parent: bool, c: &Cfg) -> R {
    let p = body.g("execution_payload");
    if check_parent {
        ensure!(p.r("parent_hash") == s.payload.as_ref().unwrap().r("block_hash"), "payload parent");
    }
    ensure!(p.r("prev_randao") == s.mix(s.epoch(c), c), "prev_randao");
    ensure!(p.n("timestamp") == s.genesis_time + s.slot * c.sps, "timestamp");
    if s.fork >= Deneb {
        ensure!(body.g("blob_kzg_commitments").seq().len() <= c.max_blobs, "too many blobs");
    }
    ensure!(c.engine_ok, "execution engine rejects");
    s.payload = Some(payload_to_header(s.schema(), p));
    Ok(())
}
pub fn process_withdrawal_request(s: &mut RState, x: &Val, c: &Cfg) {
    let amount = x.n("amount");
    let full = amount == 0;
    if s.pend_wd.len() == c.partial_limit && !full {
        return;
    }
    let pk = x.g("validator_public_key").bytes();
    let Some(i) = s.v.iter().position(|v| v.pk == pk) else { return };
    if !s.has_exec_creds(i) || s.v[i].wc[12..] != *x.g("source_address").bytes() {
        return;
    }
    let e = s.epoch(c);
    if !s.v[i].active(e) || s.v[i].exit != FAR || e < s.v[i].act + c.shard_period {
        return;
    }
    let pending = s.pending_to_withdraw(i as u64);
    if full {
        if pending == 0 {
            initiate_exit(s, i, c);
        }
        return;
    }
    if s.v[i].wc[0] == 2 && s.v[i].eb >= c.min_act_bal && s.bal[i] > c.min_act_bal + pending {
        let x = amount.min(s.bal[i] - c.min_act_bal - pending);
        let q = s.exit_churn(x, c);
        s.pend_wd.push((i as u64, x, q + c.wd_delay));
    }
}
pub fn process_consolidation(s: &mut RState, x: &Val, c: &Cfg) -> R {
    ensure!(s.pend_cons.len() < c.consolidation_limit, "queue full");
    ensure!(s.cons_churn(c) > c.min_act_bal, "no consolidation churn");
    let m = x.g("message");
    let (a, b) = (m.n("source_index"), m.n("target_index"));
    ensure!(a != b, "same validator");
    let n = s.v.len() as u64;
    ensure!(a < n && b < n, "no such validator");
    let (i, j) = (a as usize, b as usize);
    let e = s.epoch(c);
    ensure!(s.v[i].active(e) && s.v[j].active(e), "inactive");
    ensure!(s.v[i].exit == FAR && s.v[j].exit == FAR, "exiting");
    ensure!(e >= m.n("epoch"), "epoch in the future");
    ensure!(s.has_exec_creds(i) && s.has_exec_creds(j), "no execution credentials");
    ensure!(s.v[i].wc[12..] == s.v[j].wc[12..], "addresses differ");
    let d = compute_domain(D_CONSOLIDATION, &c.versions[0], &s.gvr);
    let sr = signing_root(&m.htr(), &d);
    let pks = [s.v[i].pk, s.v[j].pk];
    ensure!(bls_fast_aggregate_verify(&pks, &sr, x.g("signature").bytes()), "signature");
    let q = s.cons_churn_epoch(s.v[i].eb, c);
    s.v[i].exit = q;
    s.v[i].wd = q + c.wd_delay;
    s.pend_cons.push((a, b));
    Ok(())
}

// ------------------------------------------------------------------------------- slots
pub fn process_slot(s: &mut RState, c: &Cfg) {
    let root = s.htr();
    let k = (s.slot % c.sphr) as usize;
    s.state_roots[k] = root;
    if s.header.state == [0; 32] {
        s.header.state = root;
    }
    s.block_roots[k] = s.header.htr(s.schema());
}
pub fn process_slots(s: &mut RState, slot: u64, c: &Cfg) -> R {
    ensure!(s.slot < slot, "not a later slot");
    while s.slot < slot {
        process_slot(s, c);
        if (s.slot + 1) % c.spe == 0 {
            process_epoch(s, c)?;
        }
        s.slot += 1;
    }
    Ok(())
}
pub fn verify_block_signature(s: &RState, sb: &Val, c: &Cfg) -> R {
    let b = sb.g("message");
    let i = b.n("proposer_index");
    ensure!(i < s.v.len() as u64, "no such proposer");
    let sr = signing_root(&b.htr(), &s.domain(D_PROPOSER, s.epoch(c)));
    ensure!(bls_verify(&s.v[i as usize].pk, &sr, sb.g("signature").bytes()), "block signature");
    Ok(())
}
pub fn block_in_slot(s: &mut RState, sb: &Val, validate: bool, c: &Cfg) -> R {
    if validate {
        verify_block_signature(s, sb, c)?;
    }
    process_block(s, sb.g("message"), c)?;
    if validate {
        ensure!(sb.g("message").r("state_root") == s.htr(), "state root");
    }
    Ok(())
}
pub fn state_transition(s: &mut RState, sb: &Val, validate: bool, c: &Cfg) -> R {
    process_slots(s, sb.g("message").n("slot"), c)?;
    block_in_slot(s, sb, validate, c)
}

// ------------------------------------------------------------------------------- epochs
pub fn process_epoch(s: &mut RState, c: &Cfg) -> R {
    ep_justification(s, c)?;
    if s.fork >= Altair {
        ep_inactivity(s, c)?;
    }
    ep_rewards(s, c)?;
    ep_registry(s, c)?;
    ep_slashings(s, c);
    if (s.epoch(c) + 1) % c.eth1_period == 0 {
        s.eth1_votes.clear();
    }
    if s.fork >= Electra {
        ep_pending_deposits(s, c);
        ep_pending_consolidations(s, c);
    }
    ep_effective_balances(s, c);
    ep_resets(s, c)?;
    Ok(())
}
/// phase0: validators (unslashed) in pending attestations
fn att_set(s: &RState, atts: &[&Val], c: &Cfg) -> R<BTreeSet<usize>> {
    let mut o = BTreeSet::new();
    for a in atts {
        o.extend(attesting(s, a, c)?.into_iter().filter(|i| !s.v[*i].slashed));
    }
    Ok(o)
}
pub fn matching<'a>(s: &'a RState, epoch: u64, c: &Cfg) -> R<[Vec<&'a Val>; 3]> {
    let src: Vec<&Val> =
        if epoch == s.epoch(c) { &s.cur_atts } else { &s.prev_atts }.iter().collect();
    let br = s.block_root(epoch, c)?;
    let tgt: Vec<&Val> =
        src.iter().copied().filter(|a| a.g("data").g("target").r("root") == br).collect();
    let mut head = vec![];
    for a in &tgt {
        let d = a.g("data");
        if d.r("beacon_block_root") == s.block_root_at(d.n("slot"), c)? {
            head.push(*a);
        }
    }
    Ok([src, tgt, head])
}
pub fn part_set(s: &RState, flag: usize, epoch: u64, c: &Cfg) -> BTreeSet<usize> {
    let part = if epoch == s.epoch(c) { &s.cur_part } else { &s.prev_part };
    (0..s.v.len())
        .filter(|i| s.v[*i].active(epoch) && part[*i] >> flag & 1 == 1 && !s.v[*i].slashed)
        .collect()
}
pub fn ep_justification(s: &mut RState, c: &Cfg) -> R {
    let cur = s.epoch(c);
    if cur <= 1 {
        return Ok(());
    }
    let prev = cur - 1;
    let (pset, cset) = if s.fork == Phase0 {
        (att_set(s, &matching(s, prev, c)?[1], c)?, att_set(s, &matching(s, cur, c)?[1], c)?)
    } else {
        (part_set(s, 1, prev, c), part_set(s, 1, cur, c))
    };
    let total = s.total_active(c);
    let pb = s.total_balance(pset.into_iter(), c);
    let cb = s.total_balance(cset.into_iter(), c);
    let (opj, ocj) = (s.pj, s.cj);
    s.pj = s.cj;
    s.bits = [false, s.bits[0], s.bits[1], s.bits[2]];
    if pb * 3 >= total * 2 {
        s.cj = (prev, s.block_root(prev, c)?);
        s.bits[1] = true;
    }
    if cb * 3 >= total * 2 {
        s.cj = (cur, s.block_root(cur, c)?);
        s.bits[0] = true;
    }
    let b = s.bits;
    if b[1] && b[2] && b[3] && opj.0 + 3 == cur {
        s.fin = opj;
    }
    if b[1] && b[2] && opj.0 + 2 == cur {
        s.fin = opj;
    }
    if b[0] && b[1] && b[2] && ocj.0 + 2 == cur {
        s.fin = ocj;
    }
    if b[0] && b[1] && ocj.0 + 1 == cur {
        s.fin = ocj;
    }
    Ok(())
}
pub fn ep_inactivity(s: &mut RState, c: &Cfg) -> R {
    if s.epoch(c) == 0 {
        return Ok(());
    }
    let tgt = part_set(s, 1, s.prev_epoch(c), c);
    let leak = s.leaking(c);
    for i in s.eligible(c) {
        if tgt.contains(&i) {
            s.inact[i] -= s.inact[i].min(1);
        } else {
            s.inact[i] += c.inact_bias;
        }
        if !leak {
            s.inact[i] -= s.inact[i].min(c.inact_recovery);
        }
    }
    Ok(())
}
pub fn base_reward(s: &RState, i: usize, c: &Cfg) -> u64 {
    if s.fork == Phase0 {
        s.v[i].eb * c.base_factor / isqrt(s.total_active(c)) / 4
    } else {
        s.v[i].eb / c.ebi * (c.ebi * c.base_factor / isqrt(s.total_active(c)))
    }
}
pub fn flag_deltas(s: &RState, f: usize, c: &Cfg) -> (Vec<u64>, Vec<u64>) {
    let n = s.v.len();
    let total = s.total_active(c);
    let brpi = c.ebi * c.base_factor / isqrt(total);
    let leak = s.leaking(c);
    let set = part_set(s, f, s.prev_epoch(c), c);
    let pi = s.total_balance(set.iter().copied(), c) / c.ebi;
    let (mut rew, mut pen) = (vec![0u64; n], vec![0u64; n]);
    for i in s.eligible(c) {
        let base = s.v[i].eb / c.ebi * brpi;
        if set.contains(&i) {
            if !leak {
                rew[i] = base * WEIGHTS[f] * pi / (total / c.ebi * 64);
            }
        } else if f != 2 {
            pen[i] = base * WEIGHTS[f] / 64;
        }
    }
    (rew, pen)
}
pub fn inactivity_penalties(s: &RState, c: &Cfg) -> Vec<u64> {
    let tgt = part_set(s, 1, s.prev_epoch(c), c);
    let mut pen = vec![0; s.v.len()];
    for i in s.eligible(c) {
        if !tgt.contains(&i) {
            pen[i] = s.v[i].eb * s.inact[i] / (c.inact_bias * c.inact_q[c.col(s.fork)]);
        }
    }
    pen
}
pub fn ep_rewards(s: &mut RState, c: &Cfg) -> R {
    if s.epoch(c) == 0 {
        return Ok(());
    }
    let n = s.v.len();
    let total = s.total_active(c);
    let prev = s.prev_epoch(c);
    let leak = s.leaking(c);
    let elig = s.eligible(c);
    if s.fork == Phase0 {
        let base: Vec<u64> = s.v.iter().map(|v| v.eb * c.base_factor / isqrt(total) / 4).collect();
        let (mut rew, mut pen) = (vec![0u64; n], vec![0u64; n]);
        let m = matching(s, prev, c)?;
        for set in &m {
            let att = att_set(s, set, c)?;
            let ab = s.total_balance(att.iter().copied(), c);
            for i in &elig {
                if att.contains(i) {
                    rew[*i] += if leak { base[*i] } else { base[*i] * (ab / c.ebi) / (total / c.ebi) };
                } else {
                    pen[*i] += base[*i];
                }
            }
        }
        // inclusion delay
        let mut best: HashMap<usize, (u64, usize)> = HashMap::new();
        for a in &m[0] {
            for i in attesting(s, a, c)? {
                let d = a.n("inclusion_delay");
                if best.get(&i).is_none_or(|b| d < b.0) {
                    best.insert(i, (d, a.n("proposer_index") as usize));
                }
            }
        }
        for i in att_set(s, &m[0], c)? {
            let (d, p) = best[&i];
            let pr = base[i] / c.prop_q;
            rew[p] += pr;
            rew[i] += (base[i] - pr) / d;
        }
        // inactivity
        if leak {
            let tgt = att_set(s, &m[1], c)?;
            let fd = s.finality_delay(c);
            for i in &elig {
                pen[*i] += 4 * base[*i] - base[*i] / c.prop_q;
                if !tgt.contains(i) {
                    pen[*i] += s.v[*i].eb * fd / c.inact_q[0];
                }
            }
        }
        for i in 0..n {
            s.inc(i, rew[i]);
            s.dec(i, pen[i]);
        }
        return Ok(());
    }
    let mut deltas: Vec<(Vec<u64>, Vec<u64>)> = (0..3).map(|f| flag_deltas(s, f, c)).collect();
    deltas.push((vec![0; n], inactivity_penalties(s, c)));
    for (rew, pen) in deltas {
        for i in 0..n {
            s.inc(i, rew[i]);
            s.dec(i, pen[i]);
        }
    }
    Ok(())
}
pub fn ep_registry(s: &mut RState, c: &Cfg) -> R {
    let cur = s.epoch(c);
    for i in 0..s.v.len() {
        let v = &s.v[i];
        let full = if s.fork >= Electra { v.eb >= c.min_act_bal } else { v.eb == c.max_eb };
        if v.elig == FAR && full {
            s.v[i].elig = cur + 1;
        }
        if s.v[i].active(cur) && s.v[i].eb <= c.ejection {
            initiate_exit(s, i, c);
        }
    }
    let mut queue: Vec<(u64, usize)> = (0..s.v.len())
        .filter(|i| s.v[*i].elig <= s.fin.0 && s.v[*i].act == FAR)
        .map(|i| (s.v[i].elig, i))
        .collect();
    queue.sort();
    let limit = match s.fork {
        Electra => usize::MAX,
        Deneb => s.churn_limit(c).min(c.max_act_churn) as usize,
        _ => s.churn_limit(c) as usize,
    };
    for (_, i) in queue.into_iter().take(limit) {
        s.v[i].act = act_exit_epoch(cur, c);
    }
    Ok(())
}
pub fn ep_slashings(s: &mut RState, c: &Cfg) {
    let e = s.epoch(c);
    let total = s.total_active(c);
    let adj = (s.slashings.iter().sum::<u64>() * c.slash_mult[c.col(s.fork)]).min(total);
    for i in 0..s.v.len() {
        if s.v[i].slashed && e + c.epsv / 2 == s.v[i].wd {
            let p = s.v[i].eb / c.ebi * adj / total * c.ebi;
            s.dec(i, p);
        }
    }
}
pub fn ep_pending_deposits(s: &mut RState, c: &Cfg) {
    let avail = s.dep_consume + s.act_exit_churn(c);
    let mut done = 0;
    let mut k = 0;
    for (i, amount) in s.pend_dep.clone() {
        if done + amount > avail {
            break;
        }
        s.inc(i as usize, amount);
        done += amount;
        k += 1;
    }
    s.pend_dep.drain(..k);
    s.dep_consume = if s.pend_dep.is_empty() { 0 } else { avail - done };
}
pub fn ep_pending_consolidations(s: &mut RState, c: &Cfg) {
    let e = s.epoch(c);
    let mut k = 0;
    for (a, b) in s.pend_cons.clone() {
        let (a, b) = (a as usize, b as usize);
        if s.v[a].slashed {
            k += 1;
            continue;
        }
        if s.v[a].wd > e {
            break;
        }
        s.to_compounding(b, c);
        let x = s.bal[a].min(s.max_eb_of(a, c));
        s.dec(a, x);
        s.inc(b, x);
        k += 1;
    }
    s.pend_cons.drain(..k);
}
pub fn ep_effective_balances(s: &mut RState, c: &Cfg) {
    let h = c.ebi / c.hyst_q;
    for i in 0..s.v.len() {
        let b = s.bal[i];
        if b + h * c.hyst_down < s.v[i].eb || s.v[i].eb + h * c.hyst_up < b {
            s.v[i].eb = (b - b % c.ebi).min(s.max_eb_of(i, c));
        }
    }
}
pub fn ep_resets(s: &mut RState, c: &Cfg) -> R {
    let cur = s.epoch(c);
    let next = cur + 1;
    s.slashings[(next % c.epsv) as usize] = 0;
    s.mixes[(next % c.ephv) as usize] = s.mix(cur, c);
    if next % (c.sphr / c.spe) == 0 {
        let l = |v: &[B32]| crate::ty::merkle(v.to_vec(), v.len());
        let (b, t) = (l(&s.block_roots), l(&s.state_roots));
        if s.fork >= Capella {
            s.summaries.push((b, t));
        } else {
            s.historical_roots.push(h2(&b, &t));
        }
    }
    if s.fork == Phase0 {
        s.prev_atts = std::mem::take(&mut s.cur_atts);
    } else {
        s.prev_part = std::mem::replace(&mut s.cur_part, vec![0; s.v.len()]);
        if next % c.sync_period == 0 {
            let n = s.compute_next_sync(c)?;
            s.cur_sync = std::mem::replace(&mut s.next_sync, n);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------- upgrades
pub fn upgrade(pre: &RState, c: &Cfg) -> R<RState> {
    let mut s = pre.clone();
    let to = FORKS[pre.fork as usize + 1];
    s.fork = to;
    let e = pre.epoch(c);
    s.fork_prev = pre.fork_cur;
    s.fork_cur = c.versions[to as usize];
    s.fork_epoch = e;
    let sch = s.schema();
    match to {
        Phase0 => unreachable!(),
        Altair => {
            let n = s.v.len();
            s.prev_part = vec![0; n];
            s.cur_part = vec![0; n];
            s.inact = vec![0; n];
            // translate participation
            for a in &pre.prev_atts {
                let d = a.g("data");
                let delay = a.n("inclusion_delay");
                let t = d.g("target").n("epoch");
                let just = if t == s.epoch(c) { s.cj } else { s.pj };
                let src = (d.g("source").n("epoch"), d.g("source").r("root"));
                ensure!(src == just, "source");
                let mt = d.g("target").r("root") == s.block_root(t, c)?;
                let mh = mt && d.r("beacon_block_root") == s.block_root_at(d.n("slot"), c)?;
                for i in attesting(&s, a, c)? {
                    if delay <= isqrt(c.spe) {
                        s.prev_part[i] |= 1;
                    }
                    if mt && delay <= c.spe {
                        s.prev_part[i] |= 2;
                    }
                    if mh && delay == c.min_att_delay {
                        s.prev_part[i] |= 4;
                    }
                }
            }
            s.prev_atts = vec![];
            s.cur_atts = vec![];
            let sc = s.compute_next_sync(c)?;
            s.cur_sync = sc.clone();
            s.next_sync = sc;
        }
        Bellatrix => s.payload = Some(sch.ty("ExecutionPayloadHeader").default()),
        Capella | Deneb => {
            s.payload = Some(extend_header(pre, sch));
            if to == Capella {
                s.next_wd = 0;
                s.next_wd_v = 0;
                s.summaries = vec![];
            }
        }
        Electra => {
            s.payload = Some(extend_header(pre, sch));
            let last = s.v.iter().map(|v| v.exit).filter(|x| *x != FAR).max().unwrap_or(e);
            s.receipts_start = UNSET;
            s.dep_consume = 0;
            s.earliest_exit = last + 1;
            s.earliest_cons = act_exit_epoch(e, c);
            s.exit_consume = s.act_exit_churn(c);
            s.cons_consume = s.cons_churn(c);
            let mut pre_act: Vec<(u64, usize)> = (0..s.v.len())
                .filter(|i| s.v[*i].act == FAR)
                .map(|i| (s.v[i].elig, i))
                .collect();
            pre_act.sort();
            for (_, i) in pre_act {
                s.pend_dep.push((i as u64, s.bal[i]));
                s.bal[i] = 0;
                s.v[i].eb = 0;
                s.v[i].elig = FAR;
            }
            for i in 0..s.v.len() {
                if s.v[i].wc[0] == 2 {
                    s.queue_excess(i, c);
                }
            }
        }
    }
    Ok(s)
}
fn extend_header(pre: &RState, sch: &Schema) -> Val {
    let mut h = sch.ty("ExecutionPayloadHeader").default();
    let p = pre.payload.as_ref().unwrap();
    for f in &p.obj().cont.fields {
        h.set(f.name, p.g(f.name).clone());
    }
    h
}

// ------------------------------------------------------------------------------- genesis
pub fn genesis(
    fork: Fork,
    hash0: B32,
    time: u64,
    deposits: &[Val],
    header: Option<Val>,
    c: &Cfg,
) -> R<RState> {
    let mut s = RState::blank(fork, c.preset);
    let sch = s.schema();
    s.genesis_time = time + c.genesis_delay;
    let ver = c.versions[fork as usize];
    s.fork_prev = ver;
    s.fork_cur = ver;
    s.eth1 = Eth1 { root: [0; 32], count: deposits.len() as u64, hash: hash0 };
    s.header.body = sch.ty("BeaconBlockBody").default().htr();
    s.mixes = vec![hash0; c.ephv as usize];
    if fork >= Bellatrix {
        s.payload = Some(header.unwrap_or_else(|| sch.ty("ExecutionPayloadHeader").default()));
    }
    if fork >= Electra {
        s.receipts_start = UNSET;
    }
    let mut leaves = vec![];
    for d in deposits {
        leaves.push(d.g("data").htr());
        s.eth1.root = crate::ty::mixin(crate::ty::merkle(leaves.clone(), 1 << 32), leaves.len());
        process_deposit(&mut s, d, c)?;
    }
    if fork >= Electra {
        for (i, a) in std::mem::take(&mut s.pend_dep) {
            s.inc(i as usize, a);
        }
    }
    for i in 0..s.v.len() {
        let b = s.bal[i];
        s.v[i].eb = (b - b % c.ebi).min(c.max_eb);
        if s.v[i].eb == c.max_eb {
            s.v[i].elig = 0;
            s.v[i].act = 0;
        }
    }
    let vals = s.to_val();
    let ty = sch.ty("BeaconState").cont().ty("validators");
    s.gvr = ty.htr(vals.g("validators"));
    if fork >= Altair {
        let sc = s.compute_next_sync(c)?;
        s.cur_sync = sc.clone();
        s.next_sync = sc;
    }
    Ok(s)
}
pub fn valid_genesis(s: &RState, c: &Cfg) -> bool {
    s.genesis_time >= c.min_genesis_time && s.active(0).len() as u64 >= c.min_genesis_validators
}
