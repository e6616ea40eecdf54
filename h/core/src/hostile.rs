//! C32: blocks with hostile content are judged like any other and never crash the transition.
use crate::{
    cfg::Cfg,
    chain::{self, some_focus},
    gen::{mutate, sign, Knobs, World},
    ops,
    repo::{Fail, Op},
    rstate::{obj, RState},
    run::{reference, run_op, Case},
    schema::Fork::*,
    stf::{self, signing_root},
    ty::{sha, Ty, Val},
};
use vcommon::{json, scenarios, Rng, Run};

const LISTS: [&str; 8] =
    ["proposer_slashings", "attester_slashings", "attestations", "deposits", "voluntary_exits", "bls_to_execution_changes", "consolidations", "blob_kzg_commitments"];

fn pk(s: &RState, i: u64) -> [u8; 48] {
    s.v[(i % s.v.len() as u64) as usize].pk
}
/// Signs the operation anew, so that its content and not its signature decides.
fn resign(list: &str, x: &mut Val, s: &mut RState, alone: bool, c: &Cfg) {
    let put = |x: &mut Val, sig: [u8; 96]| x.set("signature", Val::Bytes(sig.to_vec()));
    match list {
        "proposer_slashings" => {
            for h in ["signed_header_1", "signed_header_2"] {
                let m = x.g(h).g("message").clone();
                let d = s.domain(stf::D_PROPOSER, m.n("slot") / c.spe);
                let sig = sign(&[pk(s, m.n("proposer_index"))], &signing_root(&m.htr(), &d));
                put(x.gm(h), sig);
            }
        }
        "attester_slashings" => {
            for a in ["attestation_1", "attestation_2"] {
                let d = x.g(a).g("data").clone();
                let keys: Vec<_> = x.g(a).g("attesting_indices").u64s().iter().map(|i| pk(s, *i)).collect();
                let dom = s.domain(stf::D_ATTESTER, d.g("target").n("epoch"));
                let sig = sign(&keys, &signing_root(&d.htr(), &dom));
                put(x.gm(a), sig);
            }
        }
        "attestations" => {
            let idx = vcommon::guard(|| stf::indexed(s, x, c));
            if let Ok(Ok(i)) = idx {
                let keys: Vec<_> = i.g("attesting_indices").u64s().iter().map(|i| pk(s, *i)).collect();
                let d = x.g("data").clone();
                let dom = s.domain(stf::D_ATTESTER, d.g("target").n("epoch"));
                put(x, sign(&keys, &signing_root(&d.htr(), &dom)));
            }
        }
        "voluntary_exits" => {
            let m = x.g("message").clone();
            let d = if s.fork >= Deneb {
                stf::compute_domain(stf::D_EXIT, &c.versions[Capella as usize], &s.gvr)
            } else {
                s.domain(stf::D_EXIT, m.n("epoch"))
            };
            put(x, sign(&[pk(s, m.n("validator_index"))], &signing_root(&m.htr(), &d)));
        }
        "bls_to_execution_changes" => {
            let m = x.g("message").clone();
            let mut k = [0; 48];
            k.copy_from_slice(m.g("from_bls_public_key").bytes());
            let d = stf::compute_domain(stf::D_BLS_CHANGE, &c.versions[0], &s.gvr);
            put(x, sign(&[k], &signing_root(&m.htr(), &d)));
        }
        "consolidations" => {
            let m = x.g("message").clone();
            let d = stf::compute_domain(stf::D_CONSOLIDATION, &c.versions[0], &s.gvr);
            put(x, sign(&[pk(s, m.n("source_index")), pk(s, m.n("target_index"))], &signing_root(&m.htr(), &d)));
        }
        "deposits" if alone => {
            // signed by the key it names, and proven against the state's root; more than 2^60 gwei can never have been deposited
            let n = x.g("data").n("amount");
            x.gm("data").set("amount", Val::U64(n % (1 << 60)));
            let d = x.g("data");
            let msg = obj(s.schema().ty("DepositMessage"), vec![d.g("public_key").clone(), d.g("withdrawal_credentials").clone(), d.g("amount").clone()]);
            let mut k = [0; 48];
            k.copy_from_slice(d.g("public_key").bytes());
            let sig = sign(&[k], &signing_root(&msg.htr(), &stf::compute_domain(stf::D_DEPOSIT, &c.versions[0], &[0; 32])));
            put(x.gm("data"), sig);
            let mut node = x.g("data").htr();
            for (i, n) in x.g("proof").seq().iter().enumerate() {
                node = if i < 32 && s.eth1_index >> i & 1 == 1 { sha(&[&n.b32(), &node]) } else { sha(&[&node, &n.b32()]) };
            }
            s.eth1.root = node;
        }
        _ => {}
    }
}
fn several(t: &Ty, v: &mut Val, r: &mut Rng) -> String {
    (0..*r.pick(&[1, 1, 1, 2, 3])).map(|_| mutate(t, v, r)).collect::<Vec<_>>().join(" ")
}
pub fn hostile(mut run: Run) -> ! {
    run.rule("one block with hostile content, signed anew where signatures would hide it, applied to a synthetic state; a case is (fork, preset, alteration, verdict, block)");
    chain::common(&mut run);
    run.assume("overflowing arithmetic in the protocol's rules means refusal; the build under test checks arithmetic as its test profile does");
    scenarios(&mut run, 60000, |a, i, r| {
        let fork = chain::ALL[i % 6];
        let preset = chain::preset(r, 40);
        let mut c = Cfg::random(preset, fork, r);
        let focus = some_focus(r);
        ops::tune(&mut c, &focus, r);
        let k = Knobs { focus, spoil: *r.pick(&[0, 0, 0, 10]), min_epoch: if r.chance(1, 2) { c.shard_period } else { 0 }, no_pending: fork == Phase0 && r.chance(3, 4), ..Default::default() };
        let mut w = World::new(fork, preset, c, &k, r);
        let mut b = w.block(&k, r);
        let c = w.c.clone();
        let sch = w.s.schema();
        let bt = sch.ty("BeaconBlock").cont().ty("body").clone();
        let mut how = vec![];
        let mut kinds = vec![];
        for _ in 0..*r.pick(&[1, 1, 2, 4]) {
            match r.below(10) {
                0..=4 => {
                    let l = *r.pick(&LISTS);
                    if !bt.cont().has(l) {
                        continue;
                    }
                    let Ty::L(t, max) = bt.cont().ty(l) else { continue };
                    let n = b.g("body").g(l).seq().len();
                    if n == 0 {
                        if *max == 0 || l == "deposits" {
                            continue;
                        }
                        let x = if r.chance(1, 2) { t.default() } else { t.rand(r, 6) };
                        b.gm("body").gm(l).seq_mut().push(x);
                    }
                    let n = n.max(1);
                    let j = r.idx(n);
                    let mut x = b.g("body").g(l).seq()[j].clone();
                    let p = several(t, &mut x, r);
                    if l != "blob_kzg_commitments" {
                        resign(l, &mut x, &mut w.s, n == 1 && r.chance(2, 3), &c);
                    }
                    b.gm("body").gm(l).seq_mut()[j] = x;
                    how.push(format!("{l}[{j}]{p}, signed anew"));
                    kinds.push(l);
                }
                5 => {
                    let l = *r.pick(&LISTS);
                    if !bt.cont().has(l) {
                        continue;
                    }
                    let v = bt.cont().ty(l).rand(r, 4);
                    b.gm("body").set(l, v);
                    how.push(format!("{l} of junk"));
                    kinds.push("junk operations");
                }
                6..=7 if bt.cont().has("execution_payload") => {
                    let t = bt.cont().ty("execution_payload").clone();
                    let old = b.g("body").g("execution_payload").clone();
                    let mut p = old.clone();
                    let mut s = vec![];
                    for f in ["withdrawal_requests", "deposit_receipts", "withdrawals"] {
                        if p.has(f) && r.chance(1, 2) {
                            s.push(format!(".{f}{}", several(t.cont().ty(f), p.gm(f), r)));
                        }
                    }
                    s.push(several(&t, &mut p, r));
                    if r.chance(4, 5) {
                        for f in ["parent_hash", "prev_randao", "timestamp"] {
                            p.set(f, old.g(f).clone());
                        }
                        if p.has("withdrawals") && r.chance(3, 4) {
                            p.set("withdrawals", old.g("withdrawals").clone());
                        }
                    }
                    b.gm("body").set("execution_payload", p);
                    how.push(format!("payload {}", s.join(" ")));
                    kinds.push("execution payload");
                }
                8 => {
                    let t = sch.ty("BeaconBlock").clone();
                    how.push(format!("block {}", several(&t, &mut b, r)));
                    kinds.push("anything in the block");
                }
                _ => {
                    if r.chance(1, 3) {
                        let mut t = bt.rand(r, 3);
                        if r.chance(2, 3) {
                            t.set("randao_reveal", b.g("body").g("randao_reveal").clone());
                        }
                        b.set("body", t);
                        how.push("body of junk".into());
                        kinds.push("junk bodies");
                    } else {
                        // a state in which an adopted vote took deposits back
                        w.s.eth1.count = w.s.eth1_index.saturating_sub(r.range(0, 2));
                        if w.s.eth1.count < w.s.eth1_index {
                            b.gm("body").set("deposits", Val::Seq(vec![]));
                            b.gm("body").set("eth1_data", w.s.eth1.to_val(sch));
                            kinds.push("deposit count below the deposit index");
                        }
                    }
                }
            }
        }
        // edits of the state may have moved what the header refers to
        let pre = w.s.to_val().enc();
        let mut note = how.join("; ");
        let proposer_ok = b.n("proposer_index") < w.s.v.len() as u64;
        let (input, op_signed) = if proposer_ok && b.n("slot") == w.s.slot && r.chance(1, 3) {
            let post = reference(&w.s, |s| stf::process_block(s, &b, &c));
            (w.seal(b.clone(), post.as_ref().ok()), true)
        } else {
            (w.unsealed(b.clone()), false)
        };
        if op_signed {
            note += "; fully validated";
            a.count("fully validated", 1);
        }
        let bytes = input.enc();
        let case = Case { id: "C32", what: "hostile", fork, preset, c: &c, pre: &pre, input: bytes.clone(), note };
        let got = run_op(&case, if op_signed { Op::BlockInSlot(&bytes, true) } else { Op::Block(&bytes) });
        let want = reference(&w.s, |s| {
            if op_signed {
                stf::block_in_slot(s, &input, true, &c)
            } else {
                stf::process_block(s, &b, &c)
            }
        });
        for k in &kinds {
            a.count(&format!("hostile: {k}"), 1);
        }
        if let Err(Fail::Panic(m)) = &got {
            let sig = if kinds.contains(&"deposit count below the deposit index") && want.as_ref().is_err_and(|e| e.contains("deposit count below")) {
                "panic/deposit count below the deposit index".to_string()
            } else {
                let words: String = m.split(" @ ").next().unwrap_or("").chars().take(80).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                format!("panic/{words}")
            };
            a.violation(&format!("hostile/{}/{sig}", fork.name()), case.detail(json!({"panic": m, "expected": want.as_ref().map(|_| "accepted").map_err(|e| e.clone())})));
            a.count("panics", 1);
            return;
        }
        let ok = case.judge(a, &got, &want);
        a.eval(&(fork, preset as u8, ok, &bytes), !kinds.is_empty());
        if i < 6 {
            a.sample(|| json!({"fork": fork.name(), "alteration": case.note, "verdict": match &want { Ok(_) => "accepted".to_string(), Err(e) => format!("refused: {e}") }}));
        }
    });
    for l in LISTS {
        run.floor(&format!("hostile: {l}"), 100);
    }
    for l in ["junk operations", "execution payload", "anything in the block", "junk bodies"] {
        run.floor(&format!("hostile: {l}"), 200);
    }
    for f in chain::ALL {
        run.floor(&format!("accepted hostile {}", f.name()), 50);
    }
    run.finish()
}
