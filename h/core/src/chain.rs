//! Slots, epochs, upgrades, genesis and whole transitions, judged against the reference.
use crate::{
    cfg::Cfg,
    gen::*,
    ops,
    repo::{self, Genesis, Op},
    rstate::*,
    run::*,
    schema::{Fork::*, *},
    stf,
    ty::{branch, diff, merkle, mixin, Val},
};
use vcommon::{hexs, json, Rng, Run};

pub const ALL: &[Fork] = &FORKS;
pub fn common(run: &mut Run) {
    run.assume("signature schemes are the stand-in ones of /verif/shims (same interface, lengths and group rules, exact algebra)");
    run.assume("states are synthetic: sampled field by field near the boundaries of the rules, not reached from genesis");
}
pub fn preset(r: &mut Rng, one_in: u64) -> Preset {
    if r.chance(1, one_in) {
        Preset::Mainnet
    } else {
        Preset::Minimal
    }
}

// ------------------------------------------------------------------------------- slots
pub fn slots(mut run: Run) -> ! {
    run.rule("advance a synthetic state to a target slot (same epoch, over one or several epoch boundaries, or not in the future); a case is (fork, preset, start, target, verdict)");
    common(&mut run);
    scenarios(&mut run, 6000, |a, i, r| {
        let fork = ALL[i % ALL.len()];
        let preset = preset(r, 30);
        let c = Cfg::random(preset, fork, r);
        let k = Knobs { no_pending: r.chance(1, 2), ..Default::default() };
        let w = World::new(fork, preset, c, &k, r);
        let from = w.s.slot;
        let to = match r.below(8) {
            0 => from,
            1 => from - r.below(from.min(20) + 1),
            2 => from + 1,
            3 => from + w.c.spe * r.range(1, 3),
            4 => (from / w.c.spe + 1) * w.c.spe,
            _ => from + r.range(1, w.c.spe + 2),
        };
        let to = if preset == Preset::Mainnet { to.min(from + 40) } else { to };
        let pre = w.s.to_val().enc();
        let case = Case { id: "C17", what: "slots", fork, preset, c: &w.c, pre: &pre, input: to.to_le_bytes().to_vec(), note: format!("{from} -> {to}") };
        let got = run_op(&case, Op::Slots(to));
        let want = reference(&w.s, |s| stf::process_slots(s, to, &w.c));
        let ok = case.judge(a, &got, &want);
        if to > from {
            a.count("slots advanced", to - from);
            a.count("epoch boundaries crossed", to / w.c.spe - from / w.c.spe);
        }
        a.eval(&(fork, preset as u8, from, to, ok), true);
        // a single step must be the same as what advancing does before the epoch work
        if r.chance(1, 8) {
            let case = Case { what: "slot", ..case };
            let got = run_op(&case, Op::Slot);
            let want = reference(&w.s, |s| {
                stf::process_slot(s, &w.c);
                Ok(())
            });
            case.judge(a, &got, &want);
            a.eval(&(fork, preset as u8, from, "slot"), true);
        }
        if i < 4 {
            a.sample(|| json!({"fork": fork.name(), "from": from, "to": to, "accepted": want.is_ok(), "validators": w.s.v.len()}));
        }
    });
    run.floor("epoch boundaries crossed", 500);
    for f in ALL {
        run.floor(&format!("accepted slots {}", f.name()), 50);
    }
    run.finish()
}

// ------------------------------------------------------------------------------- epochs
const JUST: &[&str] =
    &["justification_bits", "previous_justified_checkpoint", "current_justified_checkpoint", "finalized_checkpoint"];

fn group(id: &str, field: &str) -> bool {
    match id {
        "C26" => JUST.contains(&field),
        "C27" => ["balances", "inactivity_scores"].contains(&field),
        _ => !JUST.contains(&field),
    }
}
pub fn epochs(id: &'static str, what: &'static str, mut run: Run) -> ! {
    run.rule("epoch processing of a synthetic end-of-epoch state; a case is (fork, preset, epoch, resulting state)");
    common(&mut run);
    scenarios(&mut run, 9000, |a, i, r| {
        let fork = ALL[i % ALL.len()];
        let preset = preset(r, 40);
        let c = Cfg::random(preset, fork, r);
        let k = Knobs { epoch_end: true, healthy: r.chance(1, 10), ..Default::default() };
        let w = World::new(fork, preset, c, &k, r);
        let pre = w.s.to_val().enc();
        let e = w.s.epoch(&w.c);
        let case = Case { id, what, fork, preset, c: &w.c, pre: &pre, input: vec![], note: format!("end of epoch {e}") };
        let got = run_op(&case, Op::Epoch);
        let want = reference(&w.s, |s| stf::process_epoch(s, &w.c));
        observe(a, &w.s, want.as_ref().ok(), &w.c, fork);
        let sch = w.s.schema();
        let t = sch.ty("BeaconState");
        match (&got, &want) {
            (Ok(g), Ok(x)) => {
                let xv = x.to_val();
                if let Ok(gv) = t.dec(g) {
                    for f in &t.cont().fields {
                        if group(id, f.name) && gv.g(f.name) != xv.g(f.name) {
                            let mut p = vec![];
                            diff(&f.ty, gv.g(f.name), xv.g(f.name), f.name, &mut p);
                            p.truncate(8);
                            a.violation(
                                &format!("{what}/{}/state/{}", fork.name(), f.name),
                                case.detail(json!({"differences (got vs expected)": p})),
                            );
                        }
                    }
                }
                a.count(&format!("accepted {what} {}", fork.name()), 1);
                a.eval(&(fork, preset as u8, e, g), true);
            }
            _ => {
                case.judge(a, &got, &want);
                a.eval(&(fork, preset as u8, e, &pre), false);
            }
        }
        if i < 6 {
            a.sample(|| {
                json!({"fork": fork.name(), "epoch": e, "validators": w.s.v.len(),
                "finalized": w.s.fin.0, "justified": [w.s.pj.0, w.s.cj.0], "bits": w.s.bits,
                "after": want.as_ref().ok().map(|s| json!({"finalized": s.fin.0, "justified": [s.pj.0, s.cj.0]}))})
            });
        }
    });
    for f in ALL {
        run.floor(&format!("accepted {what} {}", f.name()), 100);
    }
    let floors: &[&str] = match id {
        "C26" => &["justified current epoch", "justified previous epoch", "finalized by rule 1", "finalized by rule 2", "finalized by rule 3", "finalized by rule 4"],
        "C27" => &["leaking epochs", "balances raised", "balances lowered", "inactivity scores raised", "inactivity scores lowered"],
        _ => &["validators activated", "validators ejected", "validators made eligible", "effective balances raised", "effective balances lowered", "slashing penalties due", "sync committee rotated", "historical batch added", "eth1 votes cleared"],
    };
    for f in floors {
        run.floor(f, 10);
    }
    run.finish()
}
/// what the executions exercised, from the reference's point of view
fn observe(a: &mut Acc, p: &RState, q: Option<&RState>, c: &Cfg, f: Fork) {
    let Some(q) = q else { return };
    let e = p.epoch(c);
    let mut n = |s: &str, b: bool| {
        if b {
            a.count(s, 1)
        }
    };
    if e > 1 {
        n("justified current epoch", q.cj.0 == e && p.cj.0 != e);
        n("justified previous epoch", q.cj.0 == e - 1 && p.cj.0 != e - 1);
        if q.fin != p.fin {
            // which of the four rules could have fired last
            let b = q.bits;
            n("finalized by rule 4", b[0] && b[1] && p.cj.0 + 1 == e);
            n("finalized by rule 3", b[0] && b[1] && b[2] && p.cj.0 + 2 == e);
            n("finalized by rule 2", b[1] && b[2] && p.pj.0 + 2 == e);
            n("finalized by rule 1", b[1] && b[2] && b[3] && p.pj.0 + 3 == e);
        }
        n("leaking epochs", q.finality_delay(c) > c.min_inactivity);
    }
    let k = p.v.len().min(q.v.len());
    n("balances raised", (0..k).any(|i| q.bal[i] > p.bal[i]));
    n("balances lowered", (0..k).any(|i| q.bal[i] < p.bal[i]));
    if f >= Altair {
        n("inactivity scores raised", p.inact.iter().zip(&q.inact).any(|x| x.1 > x.0));
        n("inactivity scores lowered", p.inact.iter().zip(&q.inact).any(|x| x.1 < x.0));
        n("sync committee rotated", (e + 1) % c.sync_period == 0);
    }
    n("validators activated", (0..k).any(|i| q.v[i].act != p.v[i].act));
    n("validators ejected", (0..k).any(|i| q.v[i].exit != p.v[i].exit));
    n("validators made eligible", (0..k).any(|i| q.v[i].elig != p.v[i].elig));
    n("effective balances raised", (0..k).any(|i| q.v[i].eb > p.v[i].eb));
    n("effective balances lowered", (0..k).any(|i| q.v[i].eb < p.v[i].eb));
    n("slashing penalties due", (0..k).any(|i| p.v[i].slashed && p.v[i].wd == e + c.epsv / 2));
    n("historical batch added", q.historical_roots.len() + q.summaries.len() > p.historical_roots.len() + p.summaries.len());
    n("eth1 votes cleared", !p.eth1_votes.is_empty() && q.eth1_votes.is_empty());
    n("pending deposits applied", q.pend_dep.len() < p.pend_dep.len());
    n("pending consolidations applied", q.pend_cons.len() < p.pend_cons.len());
}

// ------------------------------------------------------------------------------- slash_validator
pub fn slash_direct(a: &mut Acc, fork: Fork, r: &mut Rng) {
    let preset = preset(r, 40);
    let c = Cfg::random(preset, fork, r);
    let w = World::new(fork, preset, c, &Knobs { no_pending: true, ..Default::default() }, r);
    let pre = w.s.to_val().enc();
    let n = w.s.v.len();
    let i = r.idx(n);
    let wb = if r.chance(1, 4) { None } else { Some(r.idx(n)) };
    let case = Case { id: "C20", what: "slash", fork, preset, c: &w.c, pre: &pre, input: vec![], note: format!("slash {i}, reported by {wb:?}") };
    let got = run_op(&case, Op::Slash(i, wb));
    let want = reference(&w.s, |s| stf::slash(s, i, wb, &w.c));
    let ok = case.judge(a, &got, &want);
    a.eval(&("slash", fork, ok, i, wb, w.s.slot), true);
}

// ------------------------------------------------------------------------------- upgrades
pub fn upgrades(mut run: Run) -> ! {
    run.rule("upgrade of a synthetic state at the fork boundary to the next fork; a case is (target fork, preset, resulting state)");
    common(&mut run);
    scenarios(&mut run, 5000, |a, i, r| {
        let to = ALL[1 + i % 5];
        let from = ALL[i % 5];
        let preset = preset(r, 20);
        let mut c = Cfg::random(preset, from, r);
        let k = Knobs { epoch_start: r.chance(4, 5), ..Default::default() };
        c.epochs[to as usize] = c.epochs[from as usize] + r.below(5);
        let w = World::new(from, preset, c, &k, r);
        let pre = w.s.to_val().enc();
        let case = Case { id: "C29", what: "upgrade", fork: to, preset, c: &w.c, pre: &pre, input: vec![], note: format!("from {} at slot {}", from.name(), w.s.slot) };
        let got = repo::upgrade(to, preset, &pre, &w.c.context());
        let mut want = Err(String::new());
        let r2 = reference(&w.s, |s| {
            *s = stf::upgrade(s, &w.c)?;
            Ok(())
        });
        if let Ok(s) = r2 {
            want = Ok(s);
        } else if let Err(e) = r2 {
            want = Err(e);
        }
        let ok = case.judge(a, &got, &want);
        if from == Phase0 {
            a.count("pending attestations carried over", w.s.prev_atts.len() as u64);
        }
        if to == Electra {
            a.count("validators not yet active at the electra upgrade", w.s.v.iter().filter(|v| v.act == crate::cfg::FAR).count() as u64);
        }
        a.eval(&(to, preset as u8, ok, &got.unwrap_or_default()), true);
        if i < 5 {
            a.sample(|| json!({"from": from.name(), "to": to.name(), "slot": w.s.slot, "validators": w.s.v.len()}));
        }
    });
    for f in &ALL[1..] {
        run.floor(&format!("accepted upgrade {}", f.name()), 50);
    }
    run.floor("pending attestations carried over", 100);
    run.finish()
}

// ------------------------------------------------------------------------------- genesis
pub fn genesis(mut run: Run) -> ! {
    run.rule("genesis from an eth1 block and a list of deposits with proofs (valid, top-ups, duplicates, bad signatures and keys, bad proofs); a case is (fork, preset, resulting state, validity, genesis block)");
    common(&mut run);
    scenarios(&mut run, 1500, |a, i, r| {
        let fork = ALL[i % ALL.len()];
        let preset = preset(r, 25);
        let mut c = Cfg::random(preset, fork, r);
        c.sweep = 16;
        let n = if preset == Preset::Minimal { r.range(0, 40) as usize } else { r.range(1, 80) as usize };
        c.min_genesis_validators = match r.below(3) {
            0 => (n as u64 * 2 / 3).max(1),
            1 => 1 + r.below(n as u64 + 2),
            _ => 1,
        };
        let mut w = World::new(fork, preset, c, &Knobs { no_pending: true, validators: Some(16), ..Default::default() }, r);
        let c = w.c.clone();
        w.s = RState::blank(fork, preset);
        let sch = w.s.schema();
        let base = r.range(1, 1 << 40);
        let mut keys: Vec<[u8; 48]> = vec![];
        let mut datas = vec![];
        for j in 0..n {
            let pk = match r.below(8) {
                0 if !keys.is_empty() => *r.pick(&keys),
                1 if r.chance(1, 3) => r.arr(),
                _ => pk_of(base + j as u64),
            };
            keys.push(pk);
            let bad = r.chance(1, 10);
            datas.push(w.deposit_data(pk, bad, r));
            if r.chance(1, 12) {
                // the same deposit again, at once or later
                let j = if r.chance(1, 2) { datas.len() - 1 } else { r.idx(datas.len()) };
                let again = datas[j].clone();
                datas.push(again);
            }
        }
        let leaves: Vec<B32> = datas.iter().map(|d| d.htr()).collect();
        let n = datas.len();
        let mut deposits = vec![];
        for j in 0..n {
            let part = leaves[..=j].to_vec();
            let mut br = branch(part.clone(), 1 << 32, j);
            br.push(crate::ty::pad32(&(part.len() as u64).to_le_bytes()));
            deposits.push(obj(sch.ty("Deposit"), vec![Val::Seq(br.iter().map(|b| Val::root(*b)).collect()), datas[j].clone()]));
        }
        let _ = (merkle(leaves.clone(), 1 << 32), mixin([0; 32], 0));
        let mut note = String::new();
        if n > 1 && r.chance(1, 6) {
            match r.below(3) {
                0 => {
                    let (x, y) = (r.idx(n), r.idx(33));
                    deposits[x].gm("proof").seq_mut()[y] = Val::root(r.arr());
                    note = format!("bad proof of deposit {x}");
                }
                1 => {
                    deposits.swap(0, n - 1);
                    note = "deposits out of order".into();
                }
                _ => {
                    let x = r.idx(n);
                    let y = deposits[x].g("data").n("amount");
                    deposits[x].gm("data").set("amount", Val::U64(y ^ 2));
                    note = format!("amount of deposit {x} changed");
                }
            }
        }
        let time = match r.below(4) {
            0 => c.min_genesis_time - c.genesis_delay,
            1 => c.min_genesis_time - c.genesis_delay - 1,
            _ => c.min_genesis_time + r.below(1 << 30),
        };
        let hash: B32 = r.arr();
        let header = if fork >= Bellatrix && r.chance(1, 2) {
            Some(sch.ty("ExecutionPayloadHeader").rand(r, 4))
        } else {
            None
        };
        let enc: Vec<Vec<u8>> = deposits.iter().map(|d| d.enc()).collect();
        let henc = header.as_ref().map(|h| h.enc());
        let got = repo::genesis(
            fork,
            preset,
            &Genesis { hash, time, deposits: &enc, header: henc.as_deref() },
            &c.context(),
        );
        let blank = RState::blank(fork, preset);
        let want = reference(&blank, |s| {
            *s = stf::genesis(fork, hash, time, &deposits, header.clone(), &c)?;
            Ok(())
        });
        let pre = blank.to_val().enc();
        let case = Case { id: "C30", what: "genesis", fork, preset, c: &c, pre: &pre, input: enc.concat(), note: format!("{n} deposits; {note}; hash {} time {time} header {}", hexs(&hash), henc.map(|h| hexs(&h)).unwrap_or_default()) };
        let gs = match &got {
            Ok(g) => Ok(g.state.clone()),
            Err(e) => Err(e.clone()),
        };
        let ok = case.judge(a, &gs, &want);
        if let (Ok(g), Ok(w)) = (&got, &want) {
            let v = stf::valid_genesis(w, &c);
            a.count(if v { "valid genesis states" } else { "genesis states not valid yet" }, 1);
            a.check(g.valid == v, &format!("genesis/{}/validity", fork.name()), || {
                case.detail(json!({"reported valid": g.valid, "expected": v, "active": w.active(0).len(), "required": c.min_genesis_validators, "genesis time": w.genesis_time, "required time": c.min_genesis_time}))
            });
            let mut b = sch.ty("BeaconBlock").default();
            b.set("state_root", Val::root(w.htr()));
            a.check(g.block == b.enc(), &format!("genesis/{}/block", fork.name()), || {
                case.detail(json!({"block": hexs(&g.block), "expected": hexs(&b.enc())}))
            });
        }
        a.eval(&(fork, preset as u8, ok, gs.unwrap_or_default()), n > 0);
        if i < 5 {
            a.sample(|| json!({"fork": fork.name(), "deposits": n, "alteration": note, "accepted": want.is_ok(), "validators": want.as_ref().map(|w| w.v.len()).unwrap_or(0)}));
        }
    });
    for f in ALL {
        run.floor(&format!("accepted genesis {}", f.name()), 20);
    }
    run.floor("valid genesis states", 50);
    run.floor("genesis states not valid yet", 20);
    run.finish()
}

// ------------------------------------------------------------------------------- transitions
pub const EVERYTHING: &[Focus] = &[
    Focus::Header,
    Focus::Randao,
    Focus::Eth1,
    Focus::ProposerSlashing,
    Focus::AttesterSlashing,
    Focus::Attestation,
    Focus::Deposit,
    Focus::Exit,
    Focus::Sync,
    Focus::Payload,
    Focus::Withdrawals,
    Focus::BlsChange,
    Focus::WithdrawalRequest,
    Focus::Receipt,
    Focus::Consolidation,
];
pub fn some_focus(r: &mut Rng) -> Vec<Focus> {
    let p = *r.pick(&[1, 2, 4]);
    EVERYTHING.iter().copied().filter(|_| r.chance(p, 5)).collect()
}
/// The next block of a world: advances the reference to `slot`, then fills a block there.
/// Returns (signed block, reference post state of the block or why it is invalid).
pub fn next_block(w: &mut World, slot: u64, k: &Knobs, r: &mut Rng) -> Option<(Val, Result<RState, String>)> {
    let c = w.c.clone();
    if slot > w.s.slot {
        stf::process_slots(&mut w.s, slot, &c).ok()?;
    }
    let b = w.block(k, r);
    let post = reference(&w.s, |s| stf::process_block(s, &b, &c));
    let sb = w.seal(b, post.as_ref().ok());
    Some((sb, post))
}
pub fn transition(a: &mut Acc, i: usize, r: &mut Rng) {
    let fork = ALL[i % ALL.len()];
    let preset = preset(r, 30);
    let mut c = Cfg::random(preset, fork, r);
    let focus = some_focus(r);
    ops::tune(&mut c, &focus, r);
    let mut k = Knobs { focus, min_epoch: if r.chance(1, 2) { c.shard_period } else { 0 }, no_pending: r.chance(1, 2), healthy: r.chance(2, 3), ..Default::default() };
    let mut w = World::new(fork, preset, c, &k, r);
    let len = r.range(1, 5);
    for step in 0..len {
        let before = w.s.clone();
        let pre = before.to_val().enc();
        let gap = match r.below(6) {
            0 if step == 0 => 0,
            1 => w.c.spe,
            2 => r.range(1, 4),
            _ => 1,
        };
        let in_slot = gap == 0;
        let slot = w.s.slot + gap;
        let last = step + 1 == len;
        k.spoil = if last { *r.pick(&[0, 0, 30]) } else { 0 };
        // a world built at this slot has no operations yet
        if step > 0 {
            k.focus = some_focus(r);
            k.focus.retain(|f| *f != Focus::Deposit && *f != Focus::Consolidation);
        } else if !in_slot {
            // consolidations adjust the registry they apply to: only without slots in between
            k.focus.retain(|f| *f != Focus::Consolidation);
        }
        let pristine = w.clone();
        let Some((mut sb, mut post)) = next_block(&mut w, slot, &k, r) else { return };
        // alterations that edit the state would not match `before`
        let mut edited = pristine.s.clone();
        if gap > 0 {
            let _ = stf::process_slots(&mut edited, slot, &w.c);
        }
        let (before, pre) = if edited.to_val() != w.s.to_val() {
            if !in_slot {
                return;
            }
            (w.s.clone(), w.s.to_val().enc())
        } else {
            (before, pre)
        };
        let sch = w.s.schema();
        let mut note = w.seen.keys().cloned().collect::<Vec<_>>().join("; ");
        let mut validate = true;
        if last && post.is_ok() {
            let how = r.below(7);
            match how {
                0 => {
                    sb.gm("message").set("state_root", Val::root(r.arr()));
                    sb = w.seal(sb.g("message").clone(), None);
                    post = Err("state root".into());
                    note += "; wrong state root";
                    a.count("wrong state roots", 1);
                }
                1 => {
                    let (m, sig) = (sb.g("message").clone(), r.arr::<96>());
                    sb = obj(sch.ty("SignedBeaconBlock"), vec![m, Val::Bytes(sig.to_vec())]);
                    post = Err("proposer signature".into());
                    note += "; garbage signature";
                    a.count("wrong signatures", 1);
                }
                2 => {
                    // signed by somebody else
                    let m = sb.g("message").clone();
                    let p = (m.n("proposer_index") as usize + 1) % w.s.v.len();
                    let sr = stf::signing_root(&m.htr(), &w.s.domain(stf::D_PROPOSER, w.s.epoch(&w.c)));
                    let sig = sign(&[w.s.v[p].pk], &sr);
                    sb = obj(sch.ty("SignedBeaconBlock"), vec![m, Val::Bytes(sig.to_vec())]);
                    post = Err("proposer signature".into());
                    note += "; signed by another validator";
                    a.count("wrong signatures", 1);
                }
                3 => {
                    // not validated: neither signature nor state root matter
                    validate = false;
                    sb.gm("message").set("state_root", Val::root(r.arr()));
                    note += "; not validated";
                    a.count("transitions without validation", 1);
                }
                _ => {}
            }
            if how == 3 {
                let (b, c) = (sb.g("message").clone(), w.c.clone());
                post = reference(&w.s, |s| stf::process_block(s, &b, &c));
            }
        }
        let input = sb.enc();
        let case = Case { id: "C33", what: "transition", fork, preset, c: &w.c, pre: &pre, input: input.clone(), note };
        let op = if in_slot { Op::BlockInSlot(&input, validate) } else { Op::Transition(&input, validate) };
        let got = run_op(&case, op);
        // the end-to-end reference must agree with the piecewise one
        let whole = reference(&before, |s| {
            if in_slot {
                stf::block_in_slot(s, &sb, validate, &w.c)
            } else {
                stf::state_transition(s, &sb, validate, &w.c)
            }
        });
        assert_eq!(whole.is_ok(), post.is_ok(), "harness: reference disagrees with itself: {whole:?} {:?}", post.as_ref().err());
        let ok = case.judge(a, &got, &whole);
        a.eval(&(fork, preset as u8, step, ok, &input), true);
        if i < 6 && step == 0 {
            a.sample(|| json!({"fork": fork.name(), "slot": slot, "gap": gap, "generated": w.seen, "verdict": whole.as_ref().err()}));
        }
        match whole {
            Ok(s) if ok => {
                a.count(&format!("chain length {}", step + 1), 1);
                w.s = s;
                w.pending.clear();
                w.seen.clear();
            }
            _ => return,
        }
    }
}
pub fn transitions(mut run: Run) -> ! {
    run.rule("chains of 1-5 signed blocks with skipped slots, each judged with full validation on the chain's own state; a case is (fork, preset, chain position, alteration, verdict, block)");
    common(&mut run);
    scenarios(&mut run, 3000, transition);
    for f in ALL {
        run.floor(&format!("accepted transition {}", f.name()), if run.quick() { 40 } else { 200 });
    }
    run.floor("wrong state roots", 20);
    run.floor("wrong signatures", 20);
    run.floor("chain length 3", 20);
    run.finish()
}
