//! Block processing: one property per kind of operation, each judged against the reference.
use crate::{
    cfg::{Cfg, GWEI},
    gen::*,
    repo::Op,
    run::*,
    schema::{Fork::*, *},
    stf,
};
use vcommon::{json, Run};

pub struct Spec {
    pub id: &'static str,
    pub what: &'static str,
    pub focus: &'static [Focus],
    pub forks: &'static [Fork],
    /// the part of the block body that is mutated blindly in some scenarios
    pub fields: &'static [&'static str],
    pub quick_n: usize,
    pub rule: &'static str,
}
const ALL5: &[Fork] = &FORKS;
const POST_ALTAIR: &[Fork] = &[Altair, Bellatrix, Capella, Deneb, Electra];
const POST_MERGE: &[Fork] = &[Bellatrix, Capella, Deneb, Electra];
const POST_CAPELLA: &[Fork] = &[Capella, Deneb, Electra];

pub const SPECS: &[Spec] = &[
    Spec {
        id: "C18",
        what: "header-randao-eth1",
        focus: &[Focus::Header, Focus::Randao, Focus::Eth1],
        forks: ALL5,
        fields: &["slot", "proposer_index", "parent_root", "body.randao_reveal", "body.eth1_data", "body.graffiti"],
        quick_n: 12000,
        rule: "one block per scenario on a synthetic state; a case is (fork, preset, alteration, verdict, block)",
    },
    Spec {
        id: "C19",
        what: "attestations",
        focus: &[Focus::Attestation],
        forks: ALL5,
        fields: &["body.attestations"],
        quick_n: 12000,
        rule: "blocks carrying 1-5 attestations, valid or altered in one respect; a case is (fork, preset, alteration, verdict, block)",
    },
    Spec {
        id: "C20",
        what: "slashings",
        focus: &[Focus::ProposerSlashing, Focus::AttesterSlashing],
        forks: ALL5,
        fields: &["body.proposer_slashings", "body.attester_slashings"],
        quick_n: 12000,
        rule: "blocks carrying proposer and attester slashings, valid or altered in one respect; a case is (fork, preset, alteration, verdict, block)",
    },
    Spec {
        id: "C21",
        what: "deposits",
        focus: &[Focus::Deposit],
        forks: ALL5,
        fields: &["body.deposits"],
        quick_n: 12000,
        rule: "blocks carrying the deposits a deposit tree prescribes, valid or altered; a case is (fork, preset, alteration, verdict, block)",
    },
    Spec {
        id: "C22",
        what: "exits",
        focus: &[Focus::Exit],
        forks: ALL5,
        fields: &["body.voluntary_exits"],
        quick_n: 12000,
        rule: "blocks carrying voluntary exits, valid or altered in one respect; a case is (fork, preset, alteration, verdict, block)",
    },
    Spec {
        id: "C23",
        what: "sync-aggregate",
        focus: &[Focus::Sync],
        forks: POST_ALTAIR,
        fields: &["body.sync_aggregate"],
        quick_n: 12000,
        rule: "blocks with sync aggregates of varied participation, valid or altered; a case is (fork, preset, alteration, verdict, block)",
    },
    Spec {
        id: "C24",
        what: "withdrawals",
        focus: &[Focus::Withdrawals, Focus::BlsChange],
        forks: POST_CAPELLA,
        fields: &["body.execution_payload.withdrawals", "body.bls_to_execution_changes"],
        quick_n: 12000,
        rule: "blocks with withdrawals sweeps and credential changes, valid or altered; a case is (fork, preset, alteration, verdict, block)",
    },
    Spec {
        id: "C25",
        what: "payload",
        focus: &[Focus::Payload],
        forks: POST_MERGE,
        fields: &["body.execution_payload", "body.blob_kzg_commitments"],
        quick_n: 12000,
        rule: "blocks with execution payloads before, at and after the merge, valid or altered, with an agreeing or refusing engine; a case is (fork, preset, alteration, verdict, block)",
    },
    Spec {
        id: "C34",
        what: "electra-operations",
        focus: &[
            Focus::WithdrawalRequest,
            Focus::Receipt,
            Focus::Consolidation,
            Focus::Attestation,
            Focus::Withdrawals,
            Focus::Deposit,
            Focus::Exit,
            Focus::AttesterSlashing,
        ],
        forks: &[Electra],
        fields: &[
            "body.consolidations",
            "body.execution_payload.withdrawal_requests",
            "body.execution_payload.deposit_receipts",
            "body.attestations",
        ],
        quick_n: 12000,
        rule: "electra blocks carrying withdrawal requests, deposit receipts, consolidations, multi-committee attestations and pending queues, and end-of-epoch states with pending queues; a case is (operation mix, alteration, verdict, block)",
    },
];

/// `a.b.c` inside a block
fn at<'a>(ty: &'a crate::ty::Ty, v: &'a mut crate::ty::Val, path: &str) -> Option<(&'a crate::ty::Ty, &'a mut crate::ty::Val)> {
    let mut t = ty;
    let mut v = v;
    for p in path.split('.') {
        let c = t.cont();
        if !c.has(p) {
            return None;
        }
        t = c.ty(p);
        v = v.gm(p);
    }
    Some((t, v))
}

pub fn tune(c: &mut Cfg, focus: &[Focus], r: &mut vcommon::Rng) {
    if focus.contains(&Focus::Consolidation) {
        // enough consolidation churn for the operation to be allowed at all
        c.min_churn_electra = 100 * GWEI;
        // (68: the churn is exactly what must be exceeded)
        c.max_act_exit_churn = *r.pick(&[16, 32, 64, 67, 68]) * GWEI;
    }
}

pub fn block_ops(sp: &Spec, mut run: Run) -> ! {
    run.rule(sp.rule);
    run.assume("signature schemes are the stand-in ones of /verif/shims (same interface, lengths and group rules, exact algebra)");
    run.assume("states are synthetic: sampled field by field near the boundaries of the rules, not reached from genesis");
    scenarios(&mut run, sp.quick_n, |a, i, r| {
        let fork = sp.forks[i % sp.forks.len()];
        if sp.id == "C20" && i % 6 == 5 {
            crate::chain::slash_direct(a, sp.forks[(i / 6) % 6], r);
        }
        if sp.id == "C34" {
            let mut focus: Vec<Focus> = sp.focus.iter().copied().filter(|_| r.chance(1, 3)).collect();
            focus.push(*r.pick(&sp.focus[..4]));
            one(sp.id, sp.what, &focus, sp.fields, fork, a, i, r);
            return;
        }
        one(sp.id, sp.what, sp.focus, sp.fields, fork, a, i, r);
    });
    if sp.id == "C20" {
        for f in sp.forks {
            run.floor(&format!("accepted slash {}", f.name()), 20);
        }
    }
    for f in sp.forks {
        run.floor(&format!("accepted {} {}", sp.what, f.name()), if run.quick() { 20 } else { 100 });
    }
    run.finish()
}

#[allow(clippy::too_many_arguments)]
pub fn one(
    id: &str,
    what: &str,
    focus: &[Focus],
    fields: &[&str],
    fork: Fork,
    a: &mut Acc,
    i: usize,
    r: &mut vcommon::Rng,
) {
    let preset = if r.chance(1, 12) { Preset::Mainnet } else { Preset::Minimal };
    let mut c = Cfg::random(preset, fork, r);
    tune(&mut c, focus, r);
    if focus.contains(&Focus::Payload) && r.chance(1, 12) {
        c.engine_ok = false;
    }
    let k = Knobs {
        focus: focus.to_vec(),
        spoil: *r.pick(&[0, 0, 15, 50]),
        min_epoch: if focus.contains(&Focus::Exit) && r.chance(3, 4) { c.shard_period + 1 } else { 0 },
        no_pending: fork == Phase0 && r.chance(3, 4),
        ..Default::default()
    };
    let mut w = World::new(fork, preset, c, &k, r);
    let mut b = w.block(&k, r);
    let mut note: Vec<String> = w.seen.keys().cloned().collect();
    let bt = w.s.schema().ty("BeaconBlock").clone();
    if k.spoil == 15 && r.chance(1, 2) {
        let f = *r.pick(fields);
        if let Some((t, v)) = at(&bt, &mut b, f) {
            let p = mutate(t, v, r);
            note.push(format!("blind change of {f}{p}"));
            a.count("blind changes", 1);
        }
    }
    for n in w.seen.keys() {
        a.count(&format!("generated: {n}"), 1);
    }
    let pre = w.s.to_val().enc();
    let sb = w.unsealed(b.clone());
    let input = sb.enc();
    let case = Case { id, what, fork, preset, c: &w.c, pre: &pre, input: input.clone(), note: note.join("; ") };
    let got = run_op(&case, Op::Block(&input));
    let want = reference(&w.s, |s| stf::process_block(s, &b, &w.c));
    let ok = case.judge(a, &got, &want);
    a.eval(&(fork, preset as u8, ok, &input), true);
    if i < 6 {
        a.sample(|| {
            json!({"scenario": i, "fork": fork.name(), "slot": w.s.slot, "validators": w.s.v.len(),
                "generated": w.seen, "verdict": match &want { Ok(_) => "accepted".to_string(), Err(e) => format!("rejected: {e}") }})
        });
    }
}
