//! Read-only questions about states, and the pure shuffling functions: C15 (and C16, which runs it in another build), C40.
use crate::{
    cfg::Cfg,
    chain::{self, some_focus, ALL},
    gen::{Knobs, World},
    repo::{self, Fail, Q},
    rstate::RState,
    schema::{Fork::*, Preset},
    stf,
};
use ethereum_consensus::{phase0, primitives::Bytes32};
use serde_json::{json, Value as Json};
use vcommon::{guard, hexs, scenarios, Acc, Rng, Run};

fn hx(b: impl AsRef<[u8]>) -> Json {
    json!(hexs(b.as_ref()))
}
/// what the answer has to be; Err: the question must be refused
fn answer(s: &RState, q: &Q, c: &Cfg) -> Result<Json, String> {
    Ok(match q {
        Q::Epoch => json!(s.epoch(c)),
        Q::PrevEpoch => json!(s.prev_epoch(c)),
        Q::Active(e) => json!(s.active(*e)),
        Q::CommitteeCount(e) => json!(s.committee_count(*e, c)),
        Q::Committee(slot, i) => json!(s.committee(*slot, *i as u64, c)),
        Q::Proposer => json!(s.proposer(c)?),
        Q::SyncIndices => json!(s.next_sync_committee_indices(c)?),
        Q::SyncCommittee => {
            let x = s.compute_next_sync(c)?;
            json!([x.pks.iter().map(hx).collect::<Vec<_>>(), hx(x.agg)])
        }
        Q::Seed(e, d) => hx(s.seed(*e, *d, c)),
        Q::Mix(e) => hx(s.mix(*e, c)),
        Q::RootAtSlot(x) => hx(s.block_root_at(*x, c)?),
        Q::RootAtEpoch(x) => hx(s.block_root(*x, c)?),
        Q::TotalBalance(v) => json!(s.total_balance(v.iter().copied(), c)),
        Q::TotalActive => json!(s.total_active(c)),
        Q::Churn => json!(s.churn_limit(c)),
        Q::ActivationChurn => json!(s.churn_limit(c).min(c.max_act_churn)),
        Q::Domain(d, e) => hx(s.domain(*d, e.unwrap_or(s.epoch(c)))),
        Q::Eligible => json!(s.eligible(c)),
        Q::BaseReward(i) => json!(stf::base_reward(s, *i, c)),
        Q::RewardPerIncrement => json!(c.ebi * c.base_factor / stf::isqrt(s.total_active(c))),
        Q::ProposerReward(i) => json!(stf::base_reward(s, *i, c) / c.prop_q),
        Q::Leak => json!(s.leaking(c)),
        Q::FinalityDelay => json!(s.finality_delay(c)),
        Q::TimeAt(x) => json!(s.genesis_time + x * c.sps),
        Q::Withdrawals => {
            let (w, n) = stf::expected_withdrawals(s, c);
            json!([w.iter().map(|w| json!([w.0, w.1, hx(w.2), w.3])).collect::<Vec<_>>(), n])
        }
        Q::Participating(f, e) => {
            if *e != s.epoch(c) && *e != s.prev_epoch(c) {
                return Err("neither current nor previous epoch".into());
            }
            json!(stf::part_set(s, *f, *e, c))
        }
        Q::FlagDeltas(f) => json!(stf::flag_deltas(s, *f, c)),
        Q::InactivityDeltas => json!([vec![0; s.v.len()], stf::inactivity_penalties(s, c)]),
        Q::BalanceChurn => json!(s.balance_churn(c)),
        Q::ActExitChurn => json!(s.act_exit_churn(c)),
        Q::ConsolidationChurn => json!(s.cons_churn(c)),
        Q::ActiveBalance(i) => json!(s.bal[*i].min(s.max_eb_of(*i, c))),
        Q::PendingToWithdraw(i) => json!(s.pending_to_withdraw(*i as u64)),
        Q::Flags(i, e) => {
            let v = &s.v[*i];
            let rich = if s.fork >= Electra { v.eb >= c.min_act_bal } else { v.eb == c.max_eb };
            json!([
                v.active(*e),
                v.slashable(*e),
                v.elig == crate::cfg::FAR && rich,
                v.elig <= s.fin.0 && v.act == crate::cfg::FAR
            ])
        }
        Q::Withdrawable(i, e) => {
            let (v, b, max) = (&s.v[*i], s.bal[*i], s.max_eb_of(*i, c));
            let creds = s.has_exec_creds(*i);
            json!([creds && v.wd <= *e && b > 0, creds && v.eb == max && b > max, creds])
        }
        Q::MaxBalance(i) => json!(s.max_eb_of(*i, c)),
        Q::Matching(k, e) => {
            if *e != s.epoch(c) && *e != s.prev_epoch(c) {
                return Err("neither current nor previous epoch".into());
            }
            let src = if *e == s.epoch(c) { &s.cur_atts } else { &s.prev_atts };
            let t = s.schema().ty("PendingAttestation");
            if *k == 0 || src.is_empty() {
                json!(src.iter().map(|a| hx(t.enc(a))).collect::<Vec<_>>())
            } else {
                json!(stf::matching(s, *e, c)?[*k as usize].iter().map(|a| hx(t.enc(a))).collect::<Vec<_>>())
            }
        }
        Q::Attesters(slot, i, bits) => {
            let com = s.committee(*slot, *i as u64, c);
            if com.len() != bits.len() {
                return Err("bit count".into());
            }
            let mut v: Vec<usize> = com.iter().zip(bits).filter(|x| *x.1).map(|x| *x.0).collect();
            v.sort();
            json!(v)
        }
        Q::AttestersOf(slot, cs, bits) => {
            let com: Vec<usize> = cs.iter().flat_map(|i| s.committee(*slot, *i as u64, c)).collect();
            let mut v: Vec<usize> = com.iter().zip(bits).filter(|x| *x.1).map(|x| *x.0).collect();
            v.sort();
            json!(v)
        }
        Q::MergeComplete => json!(s.payload.as_ref().unwrap() != &s.schema().ty("ExecutionPayloadHeader").default()),
    })
}
fn name(q: &Q) -> String {
    let s = format!("{q:?}");
    s.split('(').next().unwrap().to_string()
}
fn judge(a: &mut Acc, what: &str, w: &World, pre: &[u8], qs: &[Q]) {
    let got = repo::ask(w.fork, w.preset, pre, qs, &w.c.context());
    for (q, g) in qs.iter().zip(&got) {
        let want = match guard(|| answer(&w.s, q, &w.c)) {
            Ok(x) => x,
            Err(p) => panic!("{p}"),
        };
        let n = name(q);
        let sig = |k: &str| format!("{what}/{n}/{}/{k}", w.fork.name());
        let detail = |got: Json, want: Json| {
            let mut d = json!({"question": format!("{q:?}"), "fork": w.fork.name(), "preset": format!("{:?}", w.preset), "slot": w.s.slot, "got": got, "expected": want});
            if w.preset == Preset::Minimal {
                d["config"] = json!(format!("{:?}", w.c));
                d["state_ssz"] = json!(hexs(pre));
            }
            d
        };
        match (g, &want) {
            (Ok(g), Ok(x)) if g == x => a.count(&format!("answered {n}"), 1),
            (Ok(g), Ok(x)) => a.violation(&sig("answer"), detail(g.clone(), x.clone())),
            (Ok(g), Err(e)) => a.violation(&sig("answered-undefined"), detail(g.clone(), json!(e))),
            (Err(Fail::Panic(p)), Err(_)) if p.contains("subtract with overflow") && n.starts_with("RootAt") && w.s.slot == 0 => {
                a.violation(&sig("panic at slot zero"), detail(json!(p), json!("refused")))
            }
            (Err(Fail::Panic(p)), _) => a.violation(&sig("panic"), detail(json!(p), json!(format!("{want:?}")))),
            (Err(g), Ok(x)) => a.violation(&sig("refused"), detail(json!(format!("{g:?}")), x.clone())),
            (Err(_), Err(_)) => a.count(&format!("refused {n}"), 1),
        }
        a.eval(&(w.fork, w.preset as u8, format!("{q:?}"), format!("{want:?}")), want.is_ok());
    }
}

// ------------------------------------------------------------------------------- shuffling
fn lengths(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => *r.pick(&[1, 2, 3, 4, 7, 8, 9]),
        1 => *r.pick(&[255, 256, 257]),
        2 => *r.pick(&[511, 512, 513, 767, 768, 769, 1024, 1025]),
        3 => r.range(1, 1500) as usize,
        _ => r.range(1, 300) as usize,
    }
}
fn pure(a: &mut Acc, r: &mut Rng) {
    let n = lengths(r);
    let rounds = *r.pick(&[1, 2, 3, 10, 33, 90, 90, 255]);
    let rounds = if n > 600 { rounds.min(33) } else { rounds };
    let mut c = Cfg::new(Preset::Minimal);
    c.shuffle_rounds = rounds;
    let ctx = c.context();
    let seed: [u8; 32] = r.arr();
    let s = Bytes32::try_from(&seed[..]).unwrap();
    let indices: Vec<usize> = {
        let mut x = r.below(3) as usize;
        (0..n)
            .map(|_| {
                x += 1 + r.below(3) as usize;
                x
            })
            .collect()
    };
    let perm: Vec<usize> = (0..n).map(|i| stf::shuffled_index(i, n, &seed, rounds)).collect();
    let detail = |what: &str, got: Json, want: Json| json!({"function": what, "length": n, "rounds": rounds, "seed": hexs(&seed), "got": got, "expected": want});
    // one at a time
    let mut seen = vec![false; n];
    for i in 0..n {
        match guard(|| phase0::compute_shuffled_index(i, n, &s, &ctx)) {
            Ok(Ok(x)) => {
                if x != perm[i] {
                    a.violation("shuffle/index/answer", detail("compute_shuffled_index", json!([i, x]), json!(perm[i])));
                    break;
                }
                if x >= n || std::mem::replace(&mut seen[x], true) {
                    a.violation("shuffle/index/not-a-permutation", detail("compute_shuffled_index", json!([i, x]), json!("each index once")));
                    break;
                }
            }
            other => {
                a.violation("shuffle/index/refused", detail("compute_shuffled_index", json!(format!("{other:?}")), json!(perm[i])));
                break;
            }
        }
    }
    a.count("indices shuffled", n as u64);
    for (i, m) in [(n, n), (n + 1 + r.below(1000) as usize, n), (usize::MAX, n), (0, 0), (5, 0)] {
        match guard(|| phase0::compute_shuffled_index(i, m, &s, &ctx)) {
            Ok(Err(_)) => a.count("out of range refused", 1),
            other => a.violation("shuffle/index/out-of-range", detail("compute_shuffled_index", json!(format!("{i} of {m}: {other:?}")), json!("refused"))),
        }
    }
    // the whole list
    let want: Vec<usize> = perm.iter().map(|p| indices[*p]).collect();
    match guard(|| phase0::compute_shuffled_indices(&indices, &s, &ctx)) {
        Ok(g) if g == want => a.count("lists shuffled", 1),
        other => a.violation("shuffle/list/answer", detail("compute_shuffled_indices", json!(format!("{other:?}")), json!(want))),
    }
    if let Ok(x) = guard(|| phase0::compute_shuffled_indices(&[], &s, &ctx)) {
        if !x.is_empty() {
            a.violation("shuffle/list/empty", detail("compute_shuffled_indices", json!(x), json!([])));
        }
    } else {
        a.violation("shuffle/list/empty", detail("compute_shuffled_indices", json!("panic"), json!([])));
    }
    // committees cut from it
    let count = match r.below(4) {
        0 => 1,
        1 => n,
        2 => n + 1 + r.below(5) as usize,
        _ => r.range(1, n as u64) as usize,
    };
    let mut all = vec![];
    for k in 0..count {
        match guard(|| phase0::compute_committee(&indices, &s, k, count, &ctx)) {
            Ok(Ok(g)) => {
                let w = &want[n * k / count..n * (k + 1) / count];
                if g != w {
                    a.violation("shuffle/committee/answer", detail("compute_committee", json!([k, count, g]), json!(w)));
                    break;
                }
                all.extend(g);
            }
            other => {
                a.violation("shuffle/committee/refused", detail("compute_committee", json!(format!("{k} of {count}: {other:?}")), json!("a committee")));
                break;
            }
        }
        if count > 64 && k == 40 && n > 100 {
            all.clear();
            break;
        }
    }
    if !all.is_empty() {
        a.count("committee partitions", 1);
        all.sort();
        if all != indices {
            a.violation("shuffle/committee/partition", detail("compute_committee", json!(all.len()), json!(n)));
        }
    }
    a.eval(&(n, rounds, seed, count), true);
}

/// C15 and, in the build with the whole-list shuffling, C16
pub fn selections(mut run: Run) -> ! {
    run.rule("either a shuffled list (length, rounds, seed, committee count) or a question about a synthetic state (fork, preset, question, answer): committees of every slot of an epoch, proposer, next sync committee");
    chain::common(&mut run);
    scenarios(&mut run, 6000, selection);
    floors(&mut run);
    run.finish()
}
/// C16: run in the build that shuffles whole lists
#[allow(dead_code)]
pub fn optimized(mut run: Run) -> ! {
    run.rule("in the build with whole-list shuffling: shuffled lists, committees, proposers and sync committees of synthetic states (as C15), epochs, and chains of signed blocks (as C33)");
    chain::common(&mut run);
    scenarios(&mut run, 6000, |a, i, r| if i % 4 == 3 { chain::transition(a, i / 4, r) } else { selection(a, i, r) });
    floors(&mut run);
    run.floor("accepted transition phase0", 50);
    run.floor("accepted transition electra", 50);
    run.finish()
}
/// Lists far longer than any registry built here: single positions at any length the protocol allows (2^40), and now and then whole
/// lists past 2^16 positions (past 2^24 once in a run), where a position needs more than one byte of block number.
fn long_lists(a: &mut Acc, i: usize, r: &mut Rng) {
    let setup = |rounds: u64| {
        let mut c = Cfg::new(Preset::Minimal);
        c.shuffle_rounds = rounds;
        c.context()
    };
    let seed: [u8; 32] = r.arr();
    let s = Bytes32::try_from(&seed[..]).unwrap();
    let rounds = *r.pick(&[1, 10, 90, 255]);
    let ctx = setup(rounds);
    let detail = |what: &str, n: usize, rounds: u64, got: Json, want: Json| json!({"function": what, "length": n, "rounds": rounds, "seed": hexs(&seed), "got": got, "expected": want});
    for _ in 0..6 {
        let n = match r.below(5) {
            0 => r.range(65_536, 70_000),
            1 => r.range(500_000, 3_000_000),
            2 => (1 << 24) + r.below(1 << 22),
            3 => (1u64 << 32) - 1000 + r.below(2000),
            _ => 1u64 << r.range(17, 40),
        } as usize;
        let k = match r.below(4) {
            0 => n - 1 - r.below(300) as usize,
            _ => r.below(n as u64) as usize,
        };
        let want = stf::shuffled_index(k, n, &seed, rounds);
        match guard(|| phase0::compute_shuffled_index(k, n, &s, &ctx)) {
            Ok(Ok(x)) if x == want => a.count("positions in long lists", 1),
            other => {
                a.violation("shuffle/index/long", detail("compute_shuffled_index", n, rounds, json!(format!("{k}: {other:?}")), json!(want)));
                break;
            }
        }
    }
    let (n, rounds) = match i / 3 {
        7 => ((1 << 24) + 1000 + r.below(5000) as usize, 1),
        _ if r.below(60) == 0 => (r.range(65_537, 80_000) as usize, *r.pick(&[1, 2, 5])),
        _ => return,
    };
    let ctx = setup(rounds);
    let shift = r.below(1000) as usize;
    let all: Vec<usize> = (shift..shift + n).collect();
    let want: Vec<usize> = stf::permutation(n, &seed, rounds).iter().map(|p| p + shift).collect();
    match guard(|| phase0::compute_shuffled_indices(&all, &s, &ctx)) {
        Ok(g) if g == want => a.count("long lists shuffled", 1),
        Ok(g) => {
            let at = g.iter().zip(&want).position(|(x, y)| x != y);
            a.violation("shuffle/list/long", detail("compute_shuffled_indices", n, rounds, json!(at.map(|k| (k, g[k]))), json!(at.map(|k| (k, want[k])))))
        }
        Err(p) => a.violation("shuffle/list/long", detail("compute_shuffled_indices", n, rounds, json!(p.to_string()), json!("a shuffled list"))),
    }
    let count = *r.pick(&[1usize, 64, 2048]) * if n > 1 << 20 { 256 } else { 1 };
    let k = r.below(count as u64) as usize;
    match guard(|| phase0::compute_committee(&all, &s, k, count, &ctx)) {
        Ok(Ok(g)) if g[..] == want[n * k / count..n * (k + 1) / count] => a.count("committees of long lists", 1),
        other => a.violation(
            "shuffle/committee/long",
            detail("compute_committee", n, rounds, json!(format!("{k} of {count}: {other:?}").chars().take(300).collect::<String>()), json!("the slice of the shuffled list")),
        ),
    }
}
fn selection(a: &mut Acc, i: usize, r: &mut Rng) {
    if i % 3 == 0 {
        long_lists(a, i, r);
        return pure(a, r);
    }
    let fork = *r.pick(ALL);
    let preset = chain::preset(r, 60);
    let mut c = Cfg::random(preset, fork, r);
    if r.chance(1, 2) {
        c.shuffle_rounds = *r.pick(&[1, 2, 5, 90]);
    }
    if r.chance(1, 4) {
        c.target_committee = r.range(1, 3);
    }
    let k = Knobs {
        no_pending: true,
        validators: match r.below(6) {
            0 => Some(r.range(250, 262) as usize),
            1 => Some(r.range(120, 700) as usize),
            2 => Some(r.range(2, 20) as usize),
            _ => None,
        },
        ..Default::default()
    };
    let w = World::new(fork, preset, c, &k, r);
    let pre = w.s.to_val().enc();
    let e = w.s.epoch(&w.c);
    let mut qs = vec![];
    if !w.s.active(e).is_empty() {
        qs.push(Q::Proposer);
    }
    if fork >= Altair && !w.s.active(e + 1).is_empty() {
        qs.push(Q::SyncIndices);
        if r.chance(1, 3) {
            qs.push(Q::SyncCommittee);
        }
    }
    // every committee of one of the three epochs whose shuffling a state determines
    let ep = match r.below(4) {
        0 => w.s.prev_epoch(&w.c),
        1 => e + 1,
        _ => e,
    };
    qs.push(Q::CommitteeCount(ep));
    qs.push(Q::Active(ep));
    let per = w.s.committee_count(ep, &w.c);
    let slots: Vec<u64> = if preset == Preset::Minimal && w.s.v.len() < 130 {
        (0..w.c.spe).collect()
    } else {
        vec![0, w.c.spe - 1, r.below(w.c.spe)]
    };
    for k in slots {
        for j in 0..per {
            if preset == Preset::Mainnet && j > 0 && !r.chance(1, 8) {
                continue;
            }
            qs.push(Q::Committee(ep * w.c.spe + k, j as usize));
        }
    }
    a.count(&format!("states {}", fork.name()), 1);
    if per > 1 {
        a.count("states with several committees per slot", 1);
    }
    if let Some(p) = guard(|| w.s.proposer(&w.c)).ok().and_then(|x| x.ok()) {
        if w.s.v[p].eb < w.c.max_eb {
            a.count("proposers below the full balance", 1);
        }
    }
    judge(a, "selection", &w, &pre, &qs);
    // the proposer of several later slots of the epoch
    for _ in 0..3 {
        let mut w2 = w.clone();
        w2.s.slot = e * w.c.spe + r.below(w.c.spe);
        let pre = w2.s.to_val().enc();
        if !w2.s.active(e).is_empty() {
            judge(a, "selection", &w2, &pre, &[Q::Proposer]);
        }
    }
    if i < 4 {
        a.sample(|| json!({"fork": fork.name(), "validators": w.s.v.len(), "epoch": e, "questions": qs.len()}));
    }
}
fn floors(run: &mut Run) {
    for f in ALL {
        run.floor(&format!("states {}", f.name()), 150);
    }
    run.floor("lists shuffled", 500);
    run.floor("positions in long lists", 3000);
    run.floor("long lists shuffled", 5);
    run.floor("answered Committee", 10_000);
    run.floor("answered Proposer", 4000);
    run.floor("answered SyncIndices", 1000);
    run.floor("states with several committees per slot", 100);
    run.floor("proposers below the full balance", 50);
}

/// who is named by the bits of an attestation, and which recorded attestations match
fn attesters(w: &World, r: &mut Rng) -> Vec<Q> {
    let (s, c) = (&w.s, &w.c);
    let e = s.epoch(c);
    let mut qs = vec![];
    if s.fork == Phase0 {
        for k in 0..3 {
            for x in [e, s.prev_epoch(c), e + 1 + r.below(3)] {
                qs.push(Q::Matching(k, x));
            }
            if e > 1 {
                qs.push(Q::Matching(k, e - 2 - r.below(e - 1)));
            }
        }
    }
    let x = if r.chance(1, 2) { e } else { s.prev_epoch(c) };
    let slot = x * c.spe + r.below(c.spe);
    let per = s.committee_count(x, c);
    if s.fork >= Electra {
        let cs: Vec<usize> = (0..per as usize).filter(|_| r.chance(2, 3)).collect();
        let n: usize = cs.iter().map(|i| s.committee(slot, *i as u64, c).len()).sum();
        let b = (0..n).map(|_| r.chance(1, 2)).collect();
        qs.push(Q::AttestersOf(slot, cs, b));
    } else {
        let i = r.below(per) as usize;
        let n = s.committee(slot, i as u64, c).len();
        for n in [n, n + 1 + r.idx(2), n.saturating_sub(1)] {
            qs.push(Q::Attesters(slot, i, (0..n).map(|_| r.chance(1, 2)).collect()));
        }
    }
    qs
}
/// C40
pub fn queries(mut run: Run) -> ! {
    run.rule("a read-only question about a synthetic state: (fork, preset, question with its arguments, answer)");
    chain::common(&mut run);
    scenarios(&mut run, 24000, |a, i, r| {
        let fork = ALL[i % ALL.len()];
        let preset = chain::preset(r, 60);
        let c = Cfg::random(preset, fork, r);
        let k = Knobs { no_pending: fork != Phase0 || r.chance(1, 2), focus: some_focus(r), epoch_end: r.chance(1, 6), epoch_start: r.chance(1, 6), ..Default::default() };
        let w = World::new(fork, preset, c, &k, r);
        let pre = w.s.to_val().enc();
        let (s, c) = (&w.s, &w.c);
        let e = s.epoch(c);
        let mut asked = attesters(&w, r);
        let n = s.v.len();
        let mut qs = vec![Q::Epoch, Q::PrevEpoch, Q::TotalActive, Q::Churn, Q::Eligible];
        qs.append(&mut asked);
        if s.fin.0 <= s.prev_epoch(c) {
            qs.extend([Q::Leak, Q::FinalityDelay]);
        }
        for _ in 0..3 {
            let x = match r.below(4) {
                0 => e,
                1 => e + 1,
                2 => s.prev_epoch(c),
                _ => e.saturating_sub(r.below(c.ephv)) + r.below(3),
            };
            qs.push(Q::Mix(x));
            qs.push(Q::Seed(x, r.below(12) as u8));
            qs.push(Q::Active(x));
            qs.push(Q::CommitteeCount(x));
        }
        // anything of the history vectors, and just beyond both ends
        for _ in 0..4 {
            let x = match r.below(7) {
                0 => s.slot,
                1 => s.slot + 1 + r.below(50),
                2 => s.slot.saturating_sub(c.sphr),
                3 => s.slot.saturating_sub(c.sphr + 1),
                4 => s.slot.saturating_sub(1),
                _ => s.slot.saturating_sub(r.below(c.sphr + 20)),
            };
            qs.push(Q::RootAtSlot(x));
            let x = match r.below(4) {
                0 => e + 1,
                1 => e,
                2 => s.prev_epoch(c),
                _ => e.saturating_sub(r.below(c.sphr / c.spe + 2)),
            };
            qs.push(Q::RootAtEpoch(x));
        }
        for d in 0..12 {
            if r.chance(1, 3) {
                let x = match r.below(5) {
                    0 => None,
                    1 => Some(s.fork_epoch),
                    2 => Some(s.fork_epoch.saturating_sub(1)),
                    3 => Some(r.u64()),
                    _ => Some(e + r.below(2)),
                };
                qs.push(Q::Domain(d, x));
            }
        }
        let some: Vec<usize> = (0..n).filter(|_| r.chance(1, 3)).collect();
        qs.push(Q::TotalBalance(some));
        qs.push(Q::TotalBalance(vec![]));
        for _ in 0..4 {
            let v = r.idx(n);
            let x = match r.below(6) {
                0 => s.v[v].act,
                1 => s.v[v].exit,
                2 => s.v[v].wd,
                3 => s.v[v].exit.saturating_sub(1),
                4 => s.v[v].wd.saturating_sub(1),
                _ => e,
            };
            qs.push(Q::BaseReward(v));
            qs.push(Q::Flags(v, x));
            if fork == Phase0 {
                qs.push(Q::ProposerReward(v));
            }
            if fork >= Capella {
                qs.push(Q::Withdrawable(v, x));
            }
            if fork >= Electra {
                qs.extend([Q::ActiveBalance(v), Q::PendingToWithdraw(v), Q::MaxBalance(v)]);
            }
        }
        if fork >= Altair {
            qs.push(Q::RewardPerIncrement);
            for f in 0..3 {
                qs.push(Q::Participating(f, if r.chance(1, 2) { e } else { s.prev_epoch(c) }));
                if s.fin.0 <= s.prev_epoch(c) {
                    qs.push(Q::FlagDeltas(f));
                }
            }
            qs.push(Q::Participating(r.idx(3), e + 1 + r.below(3)));
            if e > 2 {
                qs.push(Q::Participating(r.idx(3), e - 2));
            }
            qs.push(Q::InactivityDeltas);
        }
        if fork >= Bellatrix {
            qs.push(Q::MergeComplete);
            qs.push(Q::TimeAt(s.slot));
            qs.push(Q::TimeAt(r.below(1 << 40)));
        }
        if fork >= Capella {
            qs.push(Q::Withdrawals);
        }
        if fork >= Deneb {
            qs.push(Q::ActivationChurn);
        }
        if fork >= Electra {
            qs.extend([Q::BalanceChurn, Q::ActExitChurn, Q::ConsolidationChurn]);
        }
        a.count(&format!("states {}", fork.name()), 1);
        judge(a, "query", &w, &pre, &qs);
        if i < 4 {
            a.sample(|| json!({"fork": fork.name(), "validators": n, "epoch": e, "questions": qs.len()}));
        }
    });
    for q in ["Seed", "Mix", "RootAtSlot", "RootAtEpoch", "Domain", "Flags", "Withdrawals", "ActivationChurn", "BalanceChurn", "FlagDeltas", "Withdrawable"] {
        run.floor(&format!("answered {q}"), 200);
    }
    run.floor("refused RootAtSlot", 200);
    run.finish()
}
